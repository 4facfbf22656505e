// Simulated disks: files, directories, record locks, fsync semantics, crash images, injected failures.
// Every file call of the process ends here; paths under /sim/<mount>/ live on simulated disks.
#include "internal.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/stat.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

namespace sim {

enum RecType : uint8_t { L_CREATE, L_MKDIR, L_UNLINK, L_RMDIR, L_RENAME, L_WRITE, L_TRUNC, L_FSYNC };
struct Rec {
    uint8_t type;
    int ino;
    std::string path, path2;
    int64_t off;
    std::string data;
};
struct Inode {
    int id = 0;
    bool dir = false;
    std::string data;
    int64_t mtime = 0;
    int nlink = 1;
    int opens = 0;
};
struct Disk {
    std::map<std::string, int> names;    // path without leading slash -> inode; "" is the root
    std::vector<Inode*> inodes;
    std::vector<Rec> log;
    int64_t bytesLeft = -1;
};
struct Mount {
    Disk* disk;
    int proc;
};
struct Fd {
    bool used = false;
    Disk* disk = nullptr;
    int ino = 0;
    int proc = 0;
    int64_t pos = 0;
    bool rd = false, wr = false, append = false;
    std::string path;                    // as opened
    std::string inner;                   // path on the disk
};
static const int FD_BASE = 5000;
static std::map<std::string, Mount>* g_mounts;
static std::vector<Fd>* g_fds;
struct RecLock {
    int64_t owner;
};
static std::map<std::pair<Disk*, int>, RecLock>* g_locks;
struct MapEnt {
    size_t len;
    int proc;
    std::string path;
};
static std::map<uintptr_t, MapEnt>* g_maps;
static uintptr_t g_mapNext = 0x400000000000ULL;
static VfsWatcher* g_watcher = nullptr;
static uint64_t g_ops[OC_N];
static bool g_faultsOn = false;
static int g_fired = 0;
static int g_bgFailures = 0;
static std::vector<FaultHit>* g_hits;
static Rng g_frng(1);
static int g_burstLeft[OC_N], g_burstKind[OC_N];
static int64_t g_latMin = 0, g_latMax = 0;
static uint64_t g_shuffle = 0;

struct SimFile {                         // what fopen returns
    uint64_t magic;
    int fd;
};
static const uint64_t FILE_MAGIC = 0x53494d46494c4531ULL;
struct SimDir {
    uint64_t magic;
    int fd;
    size_t pos;
    std::vector<std::pair<std::string, bool>> ents;
    struct dirent de;
};
static const uint64_t DIR_MAGIC = 0x53494d4449523031ULL;

static void init() {
    if (!g_mounts) {
        Enter e;
        g_mounts = new std::map<std::string, Mount>();
        g_fds = new std::vector<Fd>();
        g_locks = new std::map<std::pair<Disk*, int>, RecLock>();
        g_maps = new std::map<uintptr_t, MapEnt>();
        g_hits = new std::vector<FaultHit>();
    }
}

const char* faultName(int k) {
    static const char* n[] = {"none", "eio", "enospc", "short", "short_then_enospc", "eintr", "eacces", "emfile", "fsync_eio", "slow"};
    return n[k];
}
const char* opClassName(int c) {
    static const char* n[] = {"open_read", "open_write", "read", "write", "fsync", "unlink", "rename", "mkdir", "stat", "list", "truncate", "lock", "close", "mmap"};
    return n[c];
}

// ---------------------------------------------------------------- disks
static Inode* newInode(Disk* d, bool dir) {
    Inode* n = new Inode();
    n->id = (int)d->inodes.size();
    n->dir = dir;
    n->mtime = g_running ? wallNow() : 0;
    d->inodes.push_back(n);
    return n;
}
Disk* newDisk() {
    init();
    Enter e;
    Disk* d = new Disk();
    Inode* root = newInode(d, true);
    d->names[""] = root->id;
    return d;
}
void mount(const std::string& name, Disk* d, int proc) {
    init();
    Enter e;
    Mount m;
    m.disk = d;
    m.proc = proc;
    (*g_mounts)[name] = m;
}
void unmount(const std::string& name) {
    Enter e;
    g_mounts->erase(name);
}
uint64_t diskSeq(Disk* d) {
    return d->log.size();
}
static void addRec(Disk* d, uint8_t type, int ino, const std::string& path, const std::string& path2 = std::string(), int64_t off = 0, const char* data = nullptr, size_t len = 0) {
    d->log.push_back(Rec());
    Rec& r = d->log.back();
    r.type = type;
    r.ino = ino;
    r.path = path;
    r.path2 = path2;
    r.off = off;
    if (len) {
        r.data.assign(data, len);
    }
}
static void applyWrite(std::string& s, int64_t off, const char* p, size_t n) {
    if (s.size() < (size_t)off + n) {
        s.resize((size_t)off + n, '\0');
    }
    memcpy(&s[(size_t)off], p, n);
}
static bool touchesFile(const Rec& r) {
    return r.type == L_WRITE || r.type == L_TRUNC;
}
static bool isMeta(const Rec& r) {
    return r.type == L_CREATE || r.type == L_MKDIR || r.type == L_UNLINK || r.type == L_RMDIR || r.type == L_RENAME;
}
Disk* crashImage(Disk* d, uint64_t seq, CrashMode mode, Rng& rng, uint64_t* hashOut) {
    Enter e;
    if (seq > d->log.size()) {
        seq = d->log.size();
    }
    Disk* out = new Disk();
    for (size_t i = 0; i < d->inodes.size(); ++i) {
        Inode* n = newInode(out, d->inodes[i]->dir);
        n->mtime = d->inodes[i]->mtime;
        n->nlink = 0;
    }
    // data
    std::vector<int64_t> lastSync(d->inodes.size(), -1);
    int64_t anySync = -1;
    for (uint64_t i = 0; i < seq; ++i) {
        if (d->log[i].type == L_FSYNC) {
            lastSync[d->log[i].ino] = (int64_t)i;
            anySync = (int64_t)i;
        }
    }
    std::vector<int> how(d->inodes.size(), -1);
    std::vector<int64_t> budget(d->inodes.size(), 0);
    std::vector<int64_t> pendingBytes(d->inodes.size(), 0);
    for (uint64_t i = 0; i < seq; ++i) {
        const Rec& r = d->log[i];
        if (touchesFile(r) && (int64_t)i > lastSync[r.ino]) {
            pendingBytes[r.ino] += (int64_t)r.data.size() + 1;
        }
    }
    for (size_t i = 0; i < how.size(); ++i) {
        if (mode.data == 0) {
            how[i] = 0;
        } else if (mode.data == 1) {
            how[i] = 1;
        } else {
            how[i] = (int)rng.below(6);
        }
        budget[i] = (int64_t)rng.below((uint64_t)pendingBytes[i] + 1);
    }
    for (uint64_t i = 0; i < seq; ++i) {
        const Rec& r = d->log[i];
        if (!touchesFile(r)) {
            continue;
        }
        std::string& s = out->inodes[r.ino]->data;
        bool durable = (int64_t)i <= lastSync[r.ino];
        int h = durable ? 1 : how[r.ino];
        if (r.type == L_TRUNC) {
            if (h == 1 || (h >= 2 && budget[r.ino] > 0)) {
                s.resize((size_t)r.off, '\0');
            }
            if (!durable) {
                --budget[r.ino];
            }
            continue;
        }
        size_t n = r.data.size();
        switch (h) {
        case 0:
            break;
        case 1:
            applyWrite(s, r.off, r.data.data(), n);
            break;
        case 2: {                       // a prefix in write order, torn at a byte
            int64_t b = budget[r.ino];
            if (b > 0) {
                applyWrite(s, r.off, r.data.data(), (size_t)std::min<int64_t>(b, (int64_t)n));
            }
            budget[r.ino] -= (int64_t)n + 1;
            break;
        }
        case 3: {                       // length updated, data not: zeroes after the cut
            int64_t b = std::max<int64_t>(0, std::min<int64_t>(budget[r.ino], (int64_t)n));
            std::string z(r.data, 0, (size_t)b);
            z.resize(n, '\0');
            applyWrite(s, r.off, z.data(), n);
            budget[r.ino] -= (int64_t)n + 1;
            break;
        }
        case 4: {                       // stale blocks after the cut
            int64_t b = std::max<int64_t>(0, std::min<int64_t>(budget[r.ino], (int64_t)n));
            std::string z(r.data, 0, (size_t)b);
            while (z.size() < n) {
                z.push_back((char)rng.next());
            }
            applyWrite(s, r.off, z.data(), n);
            budget[r.ino] -= (int64_t)n + 1;
            break;
        }
        case 5: {                       // any subset of 512 byte sectors
            std::string z(n, '\0');
            size_t k = 0;
            while (k < n) {
                size_t m = std::min<size_t>(512 - (size_t)((r.off + (int64_t)k) % 512), n - k);
                if (rng.chance(0.5)) {
                    memcpy(&z[k], r.data.data() + k, m);
                } else if ((size_t)r.off + k < s.size()) {
                    memcpy(&z[k], s.data() + r.off + k, std::min(m, s.size() - (size_t)r.off - k));
                }
                k += m;
            }
            applyWrite(s, r.off, z.data(), n);
            break;
        }
        }
    }
    // names
    std::vector<uint64_t> loose;        // metadata operations that nothing has forced to disk
    std::vector<char> survive(seq, 1);
    if (mode.metadata == 0) {
        for (uint64_t i = 0; i < seq; ++i) {
            if (isMeta(d->log[i]) && (int64_t)i > anySync) {
                loose.push_back(i);
            }
        }
        uint64_t keep = rng.below(loose.size() + 1);
        for (uint64_t k = keep; k < loose.size(); ++k) {
            survive[loose[k]] = 0;
        }
    } else {
        int bias = (int)rng.below(4);
        for (uint64_t i = 0; i < seq; ++i) {
            const Rec& r = d->log[i];
            if (!isMeta(r)) {
                continue;
            }
            bool forced = r.type == L_MKDIR;
            if ((r.type == L_CREATE || r.type == L_RENAME) && lastSync[r.ino] > (int64_t)i) {
                forced = true;
            }
            // fsync of the directory forces everything in it
            std::string par = r.path.substr(0, r.path.rfind('/') == std::string::npos ? 0 : r.path.rfind('/'));
            std::map<std::string, int>::iterator it = d->names.find(par);
            if (it != d->names.end() && lastSync[it->second] > (int64_t)i) {
                forced = true;
            }
            if (!forced) {
                survive[i] = bias == 0 ? 1 : bias == 1 ? 0 : (char)rng.chance(0.5);
            }
        }
    }
    out->names[""] = 0;
    for (uint64_t i = 0; i < seq; ++i) {
        const Rec& r = d->log[i];
        if (!isMeta(r) || !survive[i]) {
            continue;
        }
        switch (r.type) {
        case L_CREATE:
        case L_MKDIR:
            out->names[r.path] = r.ino;
            break;
        case L_UNLINK:
        case L_RMDIR: {
            std::map<std::string, int>::iterator it = out->names.find(r.path);
            if (it != out->names.end() && it->second == r.ino) {
                out->names.erase(it);
            }
            break;
        }
        case L_RENAME: {
            std::map<std::string, int>::iterator it = out->names.find(r.path);
            if (it != out->names.end() && it->second == r.ino) {
                out->names.erase(it);
            }
            out->names[r.path2] = r.ino;
            break;
        }
        }
    }
    for (std::map<std::string, int>::iterator it = out->names.begin(); it != out->names.end(); ++it) {
        out->inodes[it->second]->nlink = 1;
    }
    if (hashOut) {
        *hashOut = diskHash(out);
    }
    // what survived is on the disk: the new disk's own log starts from it
    for (std::map<std::string, int>::iterator it = out->names.begin(); it != out->names.end(); ++it) {
        Inode* n = out->inodes[it->second];
        if (it->first.empty()) {
            continue;
        }
        addRec(out, n->dir ? L_MKDIR : L_CREATE, n->id, it->first);
        if (!n->dir) {
            if (!n->data.empty()) {
                addRec(out, L_WRITE, n->id, it->first, "", 0, n->data.data(), n->data.size());
            }
            addRec(out, L_FSYNC, n->id, it->first);
        }
    }
    return out;
}
Disk* cloneDisk(Disk* d) {
    Rng r(1);
    CrashMode m;
    m.metadata = 0;
    m.data = 1;
    Enter e;
    Disk* out = new Disk();
    for (size_t i = 0; i < d->inodes.size(); ++i) {
        Inode* n = newInode(out, d->inodes[i]->dir);
        n->mtime = d->inodes[i]->mtime;
        n->data = d->inodes[i]->data;
        n->nlink = d->inodes[i]->nlink;
    }
    out->names = d->names;
    for (std::map<std::string, int>::iterator it = out->names.begin(); it != out->names.end(); ++it) {
        Inode* n = out->inodes[it->second];
        if (it->first.empty()) {
            continue;
        }
        addRec(out, n->dir ? L_MKDIR : L_CREATE, n->id, it->first);
        if (!n->dir) {
            if (!n->data.empty()) {
                addRec(out, L_WRITE, n->id, it->first, "", 0, n->data.data(), n->data.size());
            }
            addRec(out, L_FSYNC, n->id, it->first);
        }
    }
    return out;
}
void freeDisk(Disk* d) {
    Enter e;
    for (std::map<std::string, Mount>::iterator it = g_mounts->begin(); it != g_mounts->end(); ++it) {
        if (it->second.disk == d) {
            internalError("freeDisk of a mounted disk " + it->first);
        }
    }
    for (Fd& f : *g_fds) {
        if (f.used && f.disk == d) {
            f.used = false;        // a leaked handle of a process that is gone
        }
    }
    for (Inode* n : d->inodes) {
        delete n;
    }
    delete d;
}
bool seqIsWrite(Disk* d, uint64_t seq) {
    return seq < d->log.size() && d->log[seq].type == L_WRITE;
}
std::vector<uint64_t> interestingSeqs(Disk* d) {
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < d->log.size(); ++i) {
        if (d->log[i].type != L_WRITE && d->log[i].type != L_TRUNC) {
            v.push_back(i);
            v.push_back(i + 1);
        }
    }
    return v;
}
std::string describeLog(Disk* d, uint64_t from, uint64_t to) {
    static const char* n[] = {"create", "mkdir", "unlink", "rmdir", "rename", "write", "truncate", "fsync"};
    std::string s;
    for (uint64_t i = from; i < to && i < d->log.size(); ++i) {
        const Rec& r = d->log[i];
        char b[300];
        snprintf(b, sizeof b, "  #%llu %s %s%s%s", (unsigned long long)i, n[r.type], r.path.c_str(), r.path2.empty() ? "" : " -> ", r.path2.c_str());
        s += b;
        if (r.type == L_WRITE) {
            snprintf(b, sizeof b, " @%lld +%zu", (long long)r.off, r.data.size());
            s += b;
        }
        s += "\n";
    }
    return s;
}
std::vector<std::string> listFiles(Disk* d, const std::string& dir) {
    std::vector<std::string> v;
    std::string pre = dir.empty() ? "" : dir + "/";
    for (std::map<std::string, int>::iterator it = d->names.begin(); it != d->names.end(); ++it) {
        if (it->first.size() > pre.size() && it->first.compare(0, pre.size(), pre) == 0 && it->first.find('/', pre.size()) == std::string::npos && !d->inodes[it->second]->dir) {
            v.push_back(it->first.substr(pre.size()));
        }
    }
    return v;
}
bool readFile(Disk* d, const std::string& path, std::string& out) {
    std::map<std::string, int>::iterator it = d->names.find(path);
    if (it == d->names.end() || d->inodes[it->second]->dir) {
        return false;
    }
    out = d->inodes[it->second]->data;
    return true;
}
bool writeFile(Disk* d, const std::string& path, const std::string& bytes) {
    Enter e;
    std::map<std::string, int>::iterator it = d->names.find(path);
    Inode* n;
    if (it == d->names.end()) {
        for (size_t i = path.find('/'); i != std::string::npos; i = path.find('/', i + 1)) {
            std::string up = path.substr(0, i);
            if (!d->names.count(up)) {
                Inode* m = newInode(d, true);
                d->names[up] = m->id;
                addRec(d, L_MKDIR, m->id, up);
            }
        }
        n = newInode(d, false);
        d->names[path] = n->id;
        addRec(d, L_CREATE, n->id, path);
    } else {
        n = d->inodes[it->second];
        addRec(d, L_TRUNC, n->id, path, "", 0);
    }
    n->data = bytes;
    addRec(d, L_WRITE, n->id, path, "", 0, bytes.data(), bytes.size());
    addRec(d, L_FSYNC, n->id, path);
    return true;
}
bool removeFile(Disk* d, const std::string& path) {
    Enter e;
    std::map<std::string, int>::iterator it = d->names.find(path);
    if (it == d->names.end()) {
        return false;
    }
    addRec(d, L_UNLINK, it->second, path);
    d->inodes[it->second]->nlink = 0;
    d->names.erase(it);
    return true;
}
uint64_t diskHash(Disk* d) {
    uint64_t h = 1;
    for (std::map<std::string, int>::iterator it = d->names.begin(); it != d->names.end(); ++it) {
        for (char c : it->first) {
            h = (h ^ (uint8_t)c) * 1099511628211ULL;
        }
        const std::string& s = d->inodes[it->second]->data;
        h = mix(h, s.size());
        for (char c : s) {
            h = (h ^ (uint8_t)c) * 1099511628211ULL;
        }
    }
    return h;
}
int openFds(int proc) {
    int n = 0;
    for (Fd& f : *g_fds) {
        n += f.used && (proc < 0 || f.proc == proc);
    }
    return n;
}
std::string describeOpenFds(int proc) {
    std::string s;
    for (Fd& f : *g_fds) {
        if (f.used && (proc < 0 || f.proc == proc)) {
            s += " " + f.path + (f.wr ? "(w)" : "(r)");
        }
    }
    for (std::map<uintptr_t, MapEnt>::iterator it = g_maps->begin(); it != g_maps->end(); ++it) {
        if (proc < 0 || it->second.proc == proc) {
            s += " " + it->second.path + "(map)";
        }
    }
    return s;
}
int openMaps(int proc) {
    int n = 0;
    for (std::map<uintptr_t, MapEnt>::iterator it = g_maps->begin(); it != g_maps->end(); ++it) {
        n += proc < 0 || it->second.proc == proc;
    }
    return n;
}
void dropProc(int proc) {
    Enter e;
    for (Fd& f : *g_fds) {
        if (f.used && f.proc == proc) {
            f.used = false;
            --f.disk->inodes[f.ino]->opens;
        }
    }
    for (std::map<std::pair<Disk*, int>, RecLock>::iterator it = g_locks->begin(); it != g_locks->end();) {
        if (it->second.owner == proc) {
            it = g_locks->erase(it);
        } else {
            ++it;
        }
    }
    wakeWaiters(W_FLOCK, g_locks, MAX_THREADS, R_SIGNAL);
}
bool fcntlLockHeld(Disk* d, const std::string& path, int* procOut) {
    std::map<std::string, int>::iterator it = d->names.find(path);
    if (it == d->names.end()) {
        return false;
    }
    std::map<std::pair<Disk*, int>, RecLock>::iterator l = g_locks->find(std::make_pair(d, it->second));
    if (l == g_locks->end()) {
        return false;
    }
    if (procOut) {
        *procOut = (int)l->second.owner;
    }
    return true;
}
void setDiskFull(Disk* d, int64_t bytesLeft) {
    d->bytesLeft = bytesLeft;
}
int64_t diskBytes(Disk* d) {
    int64_t n = 0;
    for (Inode* i : d->inodes) {
        if (i->nlink > 0 || i->opens > 0) {
            n += (int64_t)i->data.size();
        }
    }
    return n;
}
void setWatcher(VfsWatcher* w) {
    g_watcher = w;
}
void setIoLatency(int64_t a, int64_t b) {
    g_latMin = a;
    g_latMax = b;
}
void setShuffleReaddir(uint64_t s) {
    g_shuffle = s;
}

// ---------------------------------------------------------------- faults
void setFaults(const FaultParams& p) {
    init();
    Enter e;
    g_fp = p;
    g_frng.reseed(p.seed ^ 0xfa017);
}
void enableFaults(bool on) {
    g_faultsOn = on;
}
void resetFaultCounters() {
    init();
    Enter e;
    memset(g_ops, 0, sizeof g_ops);
    memset(g_burstLeft, 0, sizeof g_burstLeft);
    g_fired = 0;
    g_bgFailures = 0;
    g_hits->clear();
}
int backgroundFaults() {
    return g_bgFailures;
}
int faultsFired() {
    return g_hits ? (int)g_hits->size() : 0; // with the ones that continue a burst
}
const std::vector<FaultHit>& firedFaults() {
    return *g_hits;
}
uint64_t vfsOps() {
    uint64_t n = 0;
    for (int i = 0; i < OC_N; ++i) {
        n += g_ops[i];
    }
    return n;
}
static inline double hash01(uint64_t a, uint64_t b, uint64_t c) {
    return (double)(mix(mix(a, b), c) >> 11) * (1.0 / 9007199254740992.0);
}
static bool isNoise(int k) {
    return k == F_SHORT || k == F_EINTR || k == F_SLOW;
}
// Called at the start of every operation on a simulated disk, before it has any effect.
static int opStart(int cls, const std::string& path) {
    schedPoint(32 + cls);
    Enter e;
    uint64_t at = g_ops[cls]++;
    traceMix(mix((uint64_t)cls, at));
    g_now += 2000;
    if (g_latMax > 0) {
        g_now += g_latMin + (int64_t)(mix(g_fp.seed ^ 77, mix((uint64_t)cls, at)) % (uint64_t)(g_latMax - g_latMin + 1));
    }
    if (g_verbose) {
        logf("io %s %s", opClassName(cls), path.c_str());
    }
    if (!g_faultsOn || !g_running) {
        return 0;
    }
    int kind = 0;
    bool match = g_fp.only.empty() || path.find(g_fp.only) != std::string::npos;
    if (match) {
        for (int k = 1; k < F_NKINDS; ++k) {
            if (isNoise(k) && g_fp.rate[cls][k] > 0 && hash01(g_fp.seed ^ 0x5eed, (uint64_t)cls * 64 + (uint64_t)k, at) < g_fp.rate[cls][k]) {
                kind = k;
                char nm[64];
                snprintf(nm, sizeof nm, "fault.%s.%s", opClassName(cls), faultName(k));
                stat(nm);
                if (k == F_SLOW) {
                    block(W_STALL, nullptr, true, g_now + 1000000LL + (int64_t)(mix(g_fp.seed, at) % 2000) * 1000000LL, false);
                    kind = 0;
                }
                break;
            }
        }
    }
    if (g_fp.explicitHits) {
        for (size_t i = 0; i < g_fp.hits.size(); ++i) {
            if (g_fp.hits[i].cls == cls && g_fp.hits[i].at == at) {
                kind = g_fp.hits[i].kind;
            }
        }
    } else if (match) {
        if (g_burstLeft[cls] > 0) {
            --g_burstLeft[cls];
            kind = g_burstKind[cls];
        } else if (g_fired < g_fp.maxFaults) {
            for (int k = 1; k < F_NKINDS; ++k) {
                if (!isNoise(k) && g_fp.rate[cls][k] > 0 && g_frng.chance(g_fp.rate[cls][k])) {
                    kind = k;
                    ++g_fired;
                    if (g_fp.burst[cls] > 1) {
                        g_burstLeft[cls] = g_fp.burst[cls] - 1;
                        g_burstKind[cls] = k;
                    }
                    break;
                }
            }
        }
    }
    if (kind && !isNoise(kind)) {
        if (g_fp.explicitHits) {
            ++g_fired;
        }
        FaultHit h;
        h.cls = (uint8_t)cls;
        h.kind = (uint8_t)kind;
        h.at = at;
        g_hits->push_back(h);
        g_bgFailures += self() != 0;
        char nm[64];
        snprintf(nm, sizeof nm, "fault.%s.%s", opClassName(cls), faultName(kind));
        stat(nm);
        traceMix(mix((uint64_t)kind, at));
        logf("INJECTED %s %s on %s", opClassName(cls), faultName(kind), path.c_str());
    }
    return kind;
}
static void opEnd(int cls, const std::string& path, int result) {
    if (g_watcher && g_running) {
        Enter e;
        g_watcher->op(cls, path, result);
    }
}
static int faultErrno(int k) {
    switch (k) {
    case F_EIO:
    case F_FSYNC_EIO:
        return EIO;
    case F_ENOSPC:
    case F_SHORT_ENOSPC:
        return ENOSPC;
    case F_EINTR:
        return EINTR;
    case F_EACCES:
        return EACCES;
    case F_EMFILE:
        return EMFILE;
    }
    return EIO;
}

// ---------------------------------------------------------------- paths and descriptors
struct Where {
    Disk* disk = nullptr;
    int proc = 0;
    std::string inner;
    std::string full;
};
// 0: not simulated, 1: simulated, -1: under /sim but no such mount
static int locate(const char* path, Where& w) {
    if (!g_running || !path || strncmp(path, "/sim", 4) || (path[4] != '/' && path[4] != 0)) {
        return 0;
    }
    Enter e;
    std::vector<std::string> parts;
    const char* p = path + 4;
    while (*p) {
        while (*p == '/') {
            ++p;
        }
        const char* q = p;
        while (*q && *q != '/') {
            ++q;
        }
        std::string c(p, q);
        if (c == "..") {
            if (!parts.empty()) {
                parts.pop_back();
            }
        } else if (!c.empty() && c != ".") {
            parts.push_back(c);
        }
        p = q;
    }
    w.full = path;
    if (parts.empty()) {
        return -1;
    }
    std::map<std::string, Mount>::iterator it = g_mounts->find(parts[0]);
    if (it == g_mounts->end()) {
        return -1;
    }
    w.disk = it->second.disk;
    w.proc = it->second.proc;
    for (size_t i = 1; i < parts.size(); ++i) {
        if (i > 1) {
            w.inner += "/";
        }
        w.inner += parts[i];
    }
    return 1;
}
static Inode* find(const Where& w) {
    std::map<std::string, int>::iterator it = w.disk->names.find(w.inner);
    return it == w.disk->names.end() ? nullptr : w.disk->inodes[it->second];
}
static bool parentOk(const Where& w, int* err) {
    size_t s = w.inner.rfind('/');
    std::string par = s == std::string::npos ? "" : w.inner.substr(0, s);
    std::map<std::string, int>::iterator it = w.disk->names.find(par);
    if (it == w.disk->names.end()) {
        *err = ENOENT;
        return false;
    }
    if (!w.disk->inodes[it->second]->dir) {
        *err = ENOTDIR;
        return false;
    }
    return true;
}
static Fd* fdGet(int fd) {
    if (fd < FD_BASE || !g_fds || fd - FD_BASE >= (int)g_fds->size() || !(*g_fds)[fd - FD_BASE].used) {
        return nullptr;
    }
    return &(*g_fds)[fd - FD_BASE];
}
static inline bool isSimFd(int fd) {
    return fd >= FD_BASE;
}
static void refuse(const char* what, const char* path) {
    stat("sim.refused_real_file_access");
    logf("REFUSED %s %s", what, path);
}
// Outside of the simulated disks only reading is allowed while a run goes on.
static bool realAllowed(const char* what, const char* path, bool mutating) {
    if (g_running && mutating) {
        refuse(what, path ? path : "?");
        errno = EROFS;
        return false;
    }
    return true;
}
static int64_t charge(Disk* d, int64_t grow) {     // how much of `grow` fits
    if (d->bytesLeft < 0 || grow <= 0) {
        return grow;
    }
    int64_t ok = std::min(grow, d->bytesLeft);
    d->bytesLeft -= ok;
    return ok;
}
static void refund(Disk* d, int64_t n) {
    if (d->bytesLeft >= 0) {
        d->bytesLeft += n;
    }
}
static void maybeFree(Disk* d, Inode* n) {
    if (n->nlink == 0 && n->opens == 0 && !n->data.empty()) {
        refund(d, (int64_t)n->data.size());
    }
}
static void dropLocks(Disk* d, int ino, int64_t owner) {
    std::map<std::pair<Disk*, int>, RecLock>::iterator it = g_locks->find(std::make_pair(d, ino));
    if (it != g_locks->end() && it->second.owner == owner) {
        g_locks->erase(it);
        wakeWaiters(W_FLOCK, g_locks, MAX_THREADS, R_SIGNAL);
    }
}

static int simOpen(const Where& w, int flags) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    int cls = wr ? OC_OPENW : OC_OPENR;
    int f = opStart(cls, w.full);
    Enter e;
    int err = 0;
    if (f == F_EINTR || f == F_EIO || f == F_EACCES || f == F_EMFILE || f == F_ENOSPC) {
        err = faultErrno(f);
        opEnd(cls, w.full, -err);
        errno = err;
        return -1;
    }
    Inode* n = find(w);
    if (!n) {
        if (!(flags & O_CREAT)) {
            err = ENOENT;
        } else if (parentOk(w, &err)) {
            n = newInode(w.disk, false);
            w.disk->names[w.inner] = n->id;
            addRec(w.disk, L_CREATE, n->id, w.inner);
        }
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
        err = EEXIST;
    } else if (n->dir && (flags & O_ACCMODE) != O_RDONLY) {
        err = EISDIR;
    } else if (!n->dir && (flags & O_DIRECTORY)) {
        err = ENOTDIR;
    } else if ((flags & O_TRUNC) && !n->data.empty()) {
        refund(w.disk, (int64_t)n->data.size());
        n->data.clear();
        n->mtime = wallNow();
        addRec(w.disk, L_TRUNC, n->id, w.inner, "", 0);
    }
    if (err) {
        opEnd(cls, w.full, -err);
        errno = err;
        return -1;
    }
    Fd d;
    d.used = true;
    d.disk = w.disk;
    d.ino = n->id;
    d.proc = w.proc;
    d.rd = (flags & O_ACCMODE) != O_WRONLY;
    d.wr = (flags & O_ACCMODE) != O_RDONLY;
    d.append = (flags & O_APPEND) != 0;
    d.path = w.full;
    d.inner = w.inner;
    ++n->opens;
    g_fds->push_back(d);
    int fd = FD_BASE + (int)g_fds->size() - 1;
    opEnd(cls, w.full, fd);
    return fd;
}
static int simClose(int fd) {
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f) {
        stat("sim.close_of_bad_descriptor");
        errno = EBADF;
        return -1;
    }
    std::string path = f->path;
    opStart(OC_CLOSE, path);
    Enter e;
    f = fdGet(fd);
    if (!f) {
        stat("sim.close_of_bad_descriptor");
        errno = EBADF;
        return -1;
    }
    f->used = false;
    Inode* n = f->disk->inodes[f->ino];
    --n->opens;
    dropLocks(f->disk, f->ino, f->proc);
    dropLocks(f->disk, f->ino, (1LL << 32) | fd);
    maybeFree(f->disk, n);
    f->path.clear();
    opEnd(OC_CLOSE, path, 0);
    return 0;
}
static ssize_t simRead(int fd, void* buf, size_t n, int64_t at = -1) {
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f || !f->rd) {
        errno = EBADF;
        return -1;
    }
    std::string path = f->path;
    int k = opStart(OC_READ, path);
    Enter e;
    f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (k == F_EIO || k == F_EINTR) {
        opEnd(OC_READ, path, -1);
        errno = faultErrno(k);
        return -1;
    }
    Inode* in = f->disk->inodes[f->ino];
    if (in->dir) {
        errno = EISDIR;
        return -1;
    }
    int64_t pos = at >= 0 ? at : f->pos;
    int64_t avail = (int64_t)in->data.size() - pos;
    if (avail <= 0 || n == 0) {
        opEnd(OC_READ, path, 0);
        return 0;
    }
    size_t m = std::min<size_t>(n, (size_t)avail);
    if (k == F_SHORT && m > 1) {
        m = 1 + mix(g_fp.seed, g_ops[OC_READ]) % (m - 1);
    }
    memcpy(buf, in->data.data() + pos, m);
    if (at < 0) {
        f->pos += (int64_t)m;
    }
    opEnd(OC_READ, path, (int)m);
    return (ssize_t)m;
}
static ssize_t simWrite(int fd, const void* buf, size_t n, int64_t at = -1) {
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f || !f->wr) {
        errno = EBADF;
        return -1;
    }
    std::string path = f->path;
    int k = opStart(OC_WRITE, path);
    Enter e;
    f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (k == F_EIO || k == F_EINTR || k == F_ENOSPC || (k == F_SHORT_ENOSPC && n < 2)) {
        opEnd(OC_WRITE, path, -1);
        errno = faultErrno(k);
        return -1;
    }
    if (n == 0) {
        return 0;
    }
    size_t m = n;
    if ((k == F_SHORT || k == F_SHORT_ENOSPC) && m > 1) {
        m = 1 + mix(g_fp.seed, g_ops[OC_WRITE]) % (m - 1);
    }
    if (k == F_SHORT_ENOSPC) {             // the rest of this write fails
        g_burstLeft[OC_WRITE] = std::max(g_burstLeft[OC_WRITE], 1);
        g_burstKind[OC_WRITE] = F_ENOSPC;
    }
    Inode* in = f->disk->inodes[f->ino];
    int64_t pos = at >= 0 ? at : f->append ? (int64_t)in->data.size() : f->pos;
    int64_t grow = pos + (int64_t)m - (int64_t)in->data.size();
    if (grow > 0) {
        int64_t ok = charge(f->disk, grow);
        if (ok < grow) {
            stat("fault.write.disk_full");
            g_bgFailures += self() != 0;
            int64_t fit = (int64_t)m - (grow - ok);
            if (fit <= 0) {
                refund(f->disk, ok);
                opEnd(OC_WRITE, path, -1);
                errno = ENOSPC;
                return -1;
            }
            m = (size_t)fit;
        }
    }
    applyWrite(in->data, pos, (const char*)buf, m);
    in->mtime = wallNow();
    addRec(f->disk, L_WRITE, in->id, f->inner, "", pos, (const char*)buf, m);
    if (at < 0) {
        f->pos = pos + (int64_t)m;
    }
    opEnd(OC_WRITE, path, (int)m);
    return (ssize_t)m;
}
static int simFsync(int fd) {
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    std::string path = f->path;
    int k = opStart(OC_FSYNC, path);
    Enter e;
    f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (k) {
        opEnd(OC_FSYNC, path, -1);
        errno = faultErrno(k);
        return -1;
    }
    addRec(f->disk, L_FSYNC, f->ino, f->inner);
    opEnd(OC_FSYNC, path, 0);
    return 0;
}
static void fillStat(Inode* n, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (off_t)n->data.size();
    st->st_ino = (ino_t)n->id + 1000;
    st->st_dev = 99;
    st->st_nlink = n->nlink ? 1 : 0;
    st->st_blksize = 4096;
    st->st_blocks = (blkcnt_t)((n->data.size() + 511) / 512);
    st->st_mtim.tv_sec = n->mtime / 1000000000LL;
    st->st_mtim.tv_nsec = n->mtime % 1000000000LL;
    st->st_ctim = st->st_atim = st->st_mtim;
}
static void fillStatx(Inode* n, struct statx* sx) {
    struct stat st;
    fillStat(n, &st);
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS;
    sx->stx_blksize = 4096;
    sx->stx_nlink = (uint32_t)st.st_nlink;
    sx->stx_mode = (uint16_t)st.st_mode;
    sx->stx_ino = st.st_ino;
    sx->stx_size = (uint64_t)st.st_size;
    sx->stx_blocks = (uint64_t)st.st_blocks;
    sx->stx_mtime.tv_sec = st.st_mtim.tv_sec;
    sx->stx_mtime.tv_nsec = (uint32_t)st.st_mtim.tv_nsec;
    sx->stx_atime = sx->stx_ctime = sx->stx_mtime;
    sx->stx_dev_minor = 99;
}
static int simStat(const Where& w, struct stat* st, struct statx* sx) {
    int k = opStart(OC_STAT, w.full);
    Enter e;
    if (k) {
        opEnd(OC_STAT, w.full, -1);
        errno = faultErrno(k);
        return -1;
    }
    Inode* n = find(w);
    if (!n) {
        opEnd(OC_STAT, w.full, -ENOENT);
        errno = ENOENT;
        return -1;
    }
    if (st) {
        fillStat(n, st);
    }
    if (sx) {
        fillStatx(n, sx);
    }
    opEnd(OC_STAT, w.full, 0);
    return 0;
}
static int simUnlink(const Where& w, bool dir, bool any) {
    int k = opStart(OC_UNLINK, w.full);
    Enter e;
    if (k) {
        opEnd(OC_UNLINK, w.full, -faultErrno(k));
        errno = faultErrno(k);
        return -1;
    }
    Inode* n = find(w);
    if (!n) {
        opEnd(OC_UNLINK, w.full, -ENOENT);
        errno = ENOENT;
        return -1;
    }
    if (any) {
        dir = n->dir;
    }
    if (n->dir != dir) {
        errno = dir ? ENOTDIR : EISDIR;
        return -1;
    }
    if (dir) {
        std::string pre = w.inner + "/";
        std::map<std::string, int>::iterator it = w.disk->names.lower_bound(pre);
        if (w.inner.empty() || (it != w.disk->names.end() && it->first.compare(0, pre.size(), pre) == 0)) {
            errno = ENOTEMPTY;
            return -1;
        }
    }
    w.disk->names.erase(w.inner);
    n->nlink = 0;
    addRec(w.disk, dir ? L_RMDIR : L_UNLINK, n->id, w.inner);
    maybeFree(w.disk, n);
    opEnd(OC_UNLINK, w.full, 0);
    return 0;
}
static int simRename(const Where& a, const Where& b) {
    int k = opStart(OC_RENAME, a.full);
    Enter e;
    if (k) {
        opEnd(OC_RENAME, a.full, -faultErrno(k));
        errno = faultErrno(k);
        return -1;
    }
    Inode* n = find(a);
    int err = 0;
    if (!n) {
        err = ENOENT;
    } else if (a.disk != b.disk) {
        err = EXDEV;
    } else if (n->dir) {
        err = EINVAL;
    } else {
        parentOk(b, &err);
    }
    if (err) {
        opEnd(OC_RENAME, a.full, -err);
        errno = err;
        return -1;
    }
    Inode* t = find(b);
    if (t == n) {
        return 0;
    }
    if (t) {
        t->nlink = 0;
        maybeFree(b.disk, t);
    }
    a.disk->names.erase(a.inner);
    a.disk->names[b.inner] = n->id;
    addRec(a.disk, L_RENAME, n->id, a.inner, b.inner);
    opEnd(OC_RENAME, a.full, 0);
    return 0;
}
static int simMkdir(const Where& w) {
    int k = opStart(OC_MKDIR, w.full);
    Enter e;
    int err = 0;
    if (k) {
        err = faultErrno(k);
    } else if (find(w)) {
        err = EEXIST;
    } else {
        parentOk(w, &err);
    }
    if (err) {
        opEnd(OC_MKDIR, w.full, -err);
        errno = err;
        return -1;
    }
    Inode* n = newInode(w.disk, true);
    w.disk->names[w.inner] = n->id;
    addRec(w.disk, L_MKDIR, n->id, w.inner);
    opEnd(OC_MKDIR, w.full, 0);
    return 0;
}
static int doTrunc(Disk* d, int ino, const std::string& inner, const std::string& full, int64_t len) {
    int k = opStart(OC_TRUNC, full);
    Enter e;
    if (k) {
        errno = faultErrno(k);
        return -1;
    }
    Inode* n = d->inodes[ino];
    int64_t old = (int64_t)n->data.size();
    if (len > old) {
        int64_t ok = charge(d, len - old);
        if (ok < len - old) {
            refund(d, ok);
            errno = ENOSPC;
            return -1;
        }
    } else {
        refund(d, old - len);
    }
    n->data.resize((size_t)len, '\0');
    n->mtime = wallNow();
    addRec(d, L_TRUNC, ino, inner, "", len);
    opEnd(OC_TRUNC, full, 0);
    return 0;
}
static int simLockOp(int fd, int64_t owner, int cmdType, bool wait, struct flock* fl) {
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    std::string path = f->path;
    int k = opStart(OC_LOCK, path);
    Enter e;
    f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (k) {
        errno = k == F_EIO ? ENOLCK : faultErrno(k);
        opEnd(OC_LOCK, path, -errno);
        return -1;
    }
    std::pair<Disk*, int> key(f->disk, f->ino);
    if (cmdType == F_UNLCK) {
        dropLocks(f->disk, f->ino, owner);
        return 0;
    }
    std::map<std::pair<Disk*, int>, RecLock>::iterator it = g_locks->find(key);
    if (fl && wait == false && cmdType == -1) {        // F_GETLK
        if (it != g_locks->end() && it->second.owner != owner) {
            fl->l_type = F_WRLCK;
            fl->l_pid = (pid_t)it->second.owner + 100;
        } else {
            fl->l_type = F_UNLCK;
        }
        return 0;
    }
    while (it != g_locks->end() && it->second.owner != owner) {
        if (!wait) {
            opEnd(OC_LOCK, path, -EAGAIN);
            errno = EAGAIN;
            return -1;
        }
        block(W_FLOCK, g_locks, false, 0, false);
        it = g_locks->find(key);
    }
    RecLock l;
    l.owner = owner;
    (*g_locks)[key] = l;
    opEnd(OC_LOCK, path, 0);
    return 0;
}
template <class F> static F real(const char* name) {
    Enter e;
    return (F)dlsym(RTLD_NEXT, name);
}
static long ret(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

}

using namespace sim;
#define REAL(fn) static auto realFn = real<decltype(&fn)>(#fn)

extern "C" {

static int openImpl(int dirfd, const char* path, int flags, mode_t mode) {
    Where w;
    std::string rel;
    if (path && path[0] != '/' && isSimFd(dirfd)) {
        Fd* f = fdGet(dirfd);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        Enter e;
        rel = f->path + "/" + path;
        path = rel.c_str();
    }
    int k = locate(path, w);
    if (k == 1) {
        return simOpen(w, flags);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    if (!realAllowed("open", path, (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))) {
        return -1;
    }
    return (int)ret(raw::sc6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
}
int open(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return openImpl(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return openImpl(AT_FDCWD, path, flags, m);
}
int openat(int d, const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return openImpl(d, path, flags, m);
}
int openat64(int d, const char* path, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return openImpl(d, path, flags, m);
}
int __open_2(const char* path, int flags) {
    return openImpl(AT_FDCWD, path, flags, 0);
}
int __open64_2(const char* path, int flags) {
    return openImpl(AT_FDCWD, path, flags, 0);
}
int __openat_2(int d, const char* path, int flags) {
    return openImpl(d, path, flags, 0);
}
int __openat64_2(int d, const char* path, int flags) {
    return openImpl(d, path, flags, 0);
}
int creat(const char* path, mode_t m) {
    return openImpl(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m);
}
int close(int fd) {
    return isSimFd(fd) ? simClose(fd) : (int)ret(raw::sc3(SYS_close, fd));
}
ssize_t read(int fd, void* b, size_t n) {
    return isSimFd(fd) ? simRead(fd, b, n) : ret(raw::sc3(SYS_read, fd, (long)b, (long)n));
}
ssize_t pread(int fd, void* b, size_t n, off_t at) {
    return isSimFd(fd) ? simRead(fd, b, n, at) : ret(raw::sc6(SYS_pread64, fd, (long)b, (long)n, at, 0, 0));
}
ssize_t pread64(int fd, void* b, size_t n, off_t at) {
    return pread(fd, b, n, at);
}
ssize_t write(int fd, const void* b, size_t n) {
    return isSimFd(fd) ? simWrite(fd, b, n) : ret(raw::sc3(SYS_write, fd, (long)b, (long)n));
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t at) {
    return isSimFd(fd) ? simWrite(fd, b, n, at) : ret(raw::sc6(SYS_pwrite64, fd, (long)b, (long)n, at, 0, 0));
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t at) {
    return pwrite(fd, b, n, at);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (!isSimFd(fd)) {
        return ret(raw::sc3(SYS_writev, fd, (long)v, n));
    }
    ssize_t total = 0;
    for (int i = 0; i < n; ++i) {
        if (!v[i].iov_len) {
            continue;
        }
        ssize_t r = simWrite(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) {
            return total ? total : -1;
        }
        total += r;
        if ((size_t)r < v[i].iov_len) {
            break;
        }
    }
    return total;
}
ssize_t readv(int fd, const struct iovec* v, int n) {
    if (!isSimFd(fd)) {
        return ret(raw::sc3(SYS_readv, fd, (long)v, n));
    }
    ssize_t total = 0;
    for (int i = 0; i < n; ++i) {
        ssize_t r = simRead(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) {
            return total ? total : -1;
        }
        total += r;
        if ((size_t)r < v[i].iov_len) {
            break;
        }
    }
    return total;
}
off_t lseek(int fd, off_t off, int whence) {
    if (!isSimFd(fd)) {
        return ret(raw::sc3(SYS_lseek, fd, off, whence));
    }
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->pos : (int64_t)f->disk->inodes[f->ino]->data.size();
    if (base + off < 0) {
        errno = EINVAL;
        return -1;
    }
    return f->pos = base + off;
}
off_t lseek64(int fd, off_t off, int whence) {
    return lseek(fd, off, whence);
}
int fsync(int fd) {
    return isSimFd(fd) ? simFsync(fd) : (int)ret(raw::sc3(SYS_fsync, fd));
}
int fdatasync(int fd) {
    return isSimFd(fd) ? simFsync(fd) : (int)ret(raw::sc3(SYS_fdatasync, fd));
}
int syncfs(int fd) {
    return isSimFd(fd) ? simFsync(fd) : (int)ret(raw::sc3(SYS_syncfs, fd));
}
int ftruncate(int fd, off_t len) {
    if (!isSimFd(fd)) {
        return (int)ret(raw::sc3(SYS_ftruncate, fd, len));
    }
    Fd* f = fdGet(fd);
    if (!f || !f->wr) {
        errno = EBADF;
        return -1;
    }
    return doTrunc(f->disk, f->ino, f->inner, f->path, len);
}
int ftruncate64(int fd, off_t len) {
    return ftruncate(fd, len);
}
int truncate(const char* path, off_t len) {
    Where w;
    int k = locate(path, w);
    if (k == 0) {
        return realAllowed("truncate", path, true) ? (int)ret(raw::sc3(SYS_truncate, (long)path, len)) : -1;
    }
    Inode* n = k == 1 ? find(w) : nullptr;
    if (!n) {
        errno = ENOENT;
        return -1;
    }
    return doTrunc(w.disk, n->id, w.inner, w.full, len);
}
int truncate64(const char* path, off_t len) {
    return truncate(path, len);
}
int posix_fallocate(int fd, off_t off, off_t len) {
    if (!isSimFd(fd)) {
        return EINVAL;
    }
    Fd* f = fdGet(fd);
    if (f && (int64_t)f->disk->inodes[f->ino]->data.size() < off + len) {
        return ftruncate(fd, off + len) ? errno : 0;
    }
    return 0;
}
int posix_fadvise(int, off_t, off_t, int) {
    return 0;
}
int posix_fadvise64(int, off_t, off_t, int) {
    return 0;
}

static int statPath(int dirfd, const char* path, struct stat* st, struct statx* sx, int flags, unsigned mask) {
    if (isSimFd(dirfd)) {
        Fd* f = fdGet(dirfd);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        if (!path || !*path) {
            Enter e;
            if (st) {
                fillStat(f->disk->inodes[f->ino], st);
            }
            if (sx) {
                fillStatx(f->disk->inodes[f->ino], sx);
            }
            return 0;
        }
        if (path[0] != '/') {
            std::string full;
            {
                Enter e;
                full = f->path + "/" + path;
            }
            return statPath(AT_FDCWD, full.c_str(), st, sx, flags, mask);
        }
    }
    Where w;
    int k = locate(path, w);
    if (k == 1) {
        return simStat(w, st, sx);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    if (st) {
        return (int)ret(raw::sc6(SYS_newfstatat, dirfd, (long)path, (long)st, flags, 0, 0));
    }
    return (int)ret(raw::sc6(SYS_statx, dirfd, (long)path, flags, mask, (long)sx, 0));
}
int stat(const char* p, struct stat* st) {
    return statPath(AT_FDCWD, p, st, nullptr, 0, 0);
}
int stat64(const char* p, struct stat64* st) {
    return statPath(AT_FDCWD, p, (struct stat*)st, nullptr, 0, 0);
}
int lstat(const char* p, struct stat* st) {
    return statPath(AT_FDCWD, p, st, nullptr, AT_SYMLINK_NOFOLLOW, 0);
}
int lstat64(const char* p, struct stat64* st) {
    return statPath(AT_FDCWD, p, (struct stat*)st, nullptr, AT_SYMLINK_NOFOLLOW, 0);
}
int fstat(int fd, struct stat* st) {
    return statPath(fd, "", st, nullptr, AT_EMPTY_PATH, 0);
}
int fstat64(int fd, struct stat64* st) {
    return statPath(fd, "", (struct stat*)st, nullptr, AT_EMPTY_PATH, 0);
}
int fstatat(int d, const char* p, struct stat* st, int flags) {
    return statPath(d, p, st, nullptr, flags, 0);
}
int fstatat64(int d, const char* p, struct stat64* st, int flags) {
    return statPath(d, p, (struct stat*)st, nullptr, flags, 0);
}
int statx(int d, const char* p, int flags, unsigned mask, struct statx* sx) {
    return statPath(d, p, nullptr, sx, flags, mask);
}
int access(const char* p, int mode) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        struct stat st;
        return simStat(w, &st, nullptr);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    return (int)ret(raw::sc3(SYS_access, (long)p, mode));
}
int statvfs(const char* p, struct statvfs* sv) {
    Where w;
    if (locate(p, w) == 1) {
        memset(sv, 0, sizeof *sv);
        sv->f_bsize = sv->f_frsize = 4096;
        sv->f_blocks = 1 << 20;
        sv->f_bavail = sv->f_bfree = w.disk->bytesLeft < 0 ? 1 << 19 : (fsblkcnt_t)(w.disk->bytesLeft / 4096);
        return 0;
    }
    errno = ENOSYS;
    return -1;
}

int unlink(const char* p) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        return simUnlink(w, false, false);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    return realAllowed("unlink", p, true) ? (int)ret(raw::sc3(SYS_unlink, (long)p)) : -1;
}
int rmdir(const char* p) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        return simUnlink(w, true, false);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    return realAllowed("rmdir", p, true) ? (int)ret(raw::sc3(SYS_rmdir, (long)p)) : -1;
}
int remove(const char* p) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        return simUnlink(w, false, true);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    return realAllowed("remove", p, true) ? (int)ret(raw::sc3(SYS_unlink, (long)p)) : -1;
}
int unlinkat(int d, const char* p, int flags) {
    std::string full;
    if (isSimFd(d) && p[0] != '/') {
        Fd* f = fdGet(d);
        if (!f) {
            errno = EBADF;
            return -1;
        }
        Enter e;
        full = f->path + "/" + p;
        p = full.c_str();
    }
    return (flags & AT_REMOVEDIR) ? rmdir(p) : unlink(p);
}
int rename(const char* a, const char* b) {
    Where wa, wb;
    int ka = locate(a, wa), kb = locate(b, wb);
    if (ka == 1 && kb == 1) {
        return simRename(wa, wb);
    }
    if (ka < 0 || kb < 0) {
        errno = ENOENT;
        return -1;
    }
    if (ka == 1 || kb == 1) {
        errno = EXDEV;
        return -1;
    }
    return realAllowed("rename", a, true) ? (int)ret(raw::sc3(SYS_rename, (long)a, (long)b)) : -1;
}
int renameat(int, const char* a, int, const char* b) {
    return rename(a, b);
}
int link(const char* a, const char*) {
    realAllowed("link", a, true);
    errno = EPERM;
    return -1;
}
int symlink(const char* a, const char*) {
    realAllowed("symlink", a, true);
    errno = EPERM;
    return -1;
}
ssize_t readlink(const char* p, char* b, size_t n) {
    Where w;
    if (locate(p, w) != 0) {
        errno = EINVAL;
        return -1;
    }
    return ret(raw::sc3(SYS_readlink, (long)p, (long)b, (long)n));
}
int mkdir(const char* p, mode_t m) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        return simMkdir(w);
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    return realAllowed("mkdir", p, true) ? (int)ret(raw::sc3(SYS_mkdir, (long)p, m)) : -1;
}
int chmod(const char* p, mode_t) {
    return realAllowed("chmod", p, true) ? (errno = EPERM, -1) : -1;
}
int fchmod(int, mode_t) {
    return 0;
}
int utimensat(int d, const char* p, const struct timespec* ts, int) {
    Where w;
    int k = locate(p, w);
    (void)d;
    if (k == 1) {
        int f = opStart(OC_STAT, w.full);
        Enter e;
        if (f) {
            errno = faultErrno(f);
            return -1;
        }
        Inode* n = find(w);
        if (!n) {
            errno = ENOENT;
            return -1;
        }
        if (!ts || ts[1].tv_nsec == UTIME_NOW) {
            n->mtime = wallNow();
        } else if (ts[1].tv_nsec != UTIME_OMIT) {
            n->mtime = (int64_t)ts[1].tv_sec * 1000000000LL + ts[1].tv_nsec;
        }
        return 0;
    }
    if (k < 0) {
        errno = ENOENT;
        return -1;
    }
    realAllowed("utimensat", p, true);
    errno = EPERM;
    return -1;
}
int utime(const char* p, const struct utimbuf*) {
    return utimensat(AT_FDCWD, p, nullptr, 0);
}
int utimes(const char* p, const struct timeval*) {
    return utimensat(AT_FDCWD, p, nullptr, 0);
}

// ---------------------------------------------------------------- directories
static DIR* makeDir(const Where& w, int fd) {
    int k = opStart(OC_LIST, w.full);
    Enter e;
    if (k) {
        opEnd(OC_LIST, w.full, -1);
        errno = faultErrno(k);
        return nullptr;
    }
    Inode* n = find(w);
    if (!n) {
        errno = ENOENT;
        return nullptr;
    }
    if (!n->dir) {
        errno = ENOTDIR;
        return nullptr;
    }
    SimDir* d = new SimDir();
    d->magic = DIR_MAGIC;
    d->fd = fd;
    d->pos = 0;
    d->ents.push_back(std::make_pair(std::string("."), true));
    d->ents.push_back(std::make_pair(std::string(".."), true));
    std::string pre = w.inner.empty() ? "" : w.inner + "/";
    for (std::map<std::string, int>::iterator it = w.disk->names.begin(); it != w.disk->names.end(); ++it) {
        if (it->first.size() > pre.size() && it->first.compare(0, pre.size(), pre) == 0 && it->first.find('/', pre.size()) == std::string::npos) {
            d->ents.push_back(std::make_pair(it->first.substr(pre.size()), w.disk->inodes[it->second]->dir));
        }
    }
    if (g_shuffle) {
        Rng r(mix(g_shuffle, g_ops[OC_LIST]));
        for (size_t i = d->ents.size(); i > 1; --i) {
            std::swap(d->ents[i - 1], d->ents[r.below(i)]);
        }
    }
    opEnd(OC_LIST, w.full, 0);
    return (DIR*)d;
}
DIR* opendir(const char* p) {
    Where w;
    int k = locate(p, w);
    if (k == 1) {
        return makeDir(w, -1);
    }
    if (k < 0) {
        errno = ENOENT;
        return nullptr;
    }
    REAL(opendir);
    return realFn(p);
}
DIR* fdopendir(int fd) {
    if (isSimFd(fd)) {
        Fd* f = fdGet(fd);
        if (!f) {
            errno = EBADF;
            return nullptr;
        }
        Where w;
        {
            Enter e;
            w.disk = f->disk;
            w.proc = f->proc;
            w.inner = f->inner;
            w.full = f->path;
        }
        return makeDir(w, fd);
    }
    REAL(fdopendir);
    return realFn(fd);
}
struct dirent* readdir(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (!g_running || d->magic != DIR_MAGIC) {
        REAL(readdir);
        return realFn(dd);
    }
    if (d->pos >= d->ents.size()) {
        return nullptr;
    }
    Enter e;
    const std::pair<std::string, bool>& x = d->ents[d->pos++];
    memset(&d->de, 0, sizeof d->de);
    d->de.d_ino = d->pos;
    d->de.d_type = x.second ? DT_DIR : DT_REG;
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", x.first.c_str());
    return &d->de;
}
struct dirent64* readdir64(DIR* dd) {
    return (struct dirent64*)readdir(dd);
}
int readdir_r(DIR* dd, struct dirent* ent, struct dirent** out) {
    struct dirent* r = readdir(dd);
    if (!r) {
        *out = nullptr;
        return 0;
    }
    *ent = *r;
    *out = ent;
    return 0;
}
int readdir64_r(DIR* dd, struct dirent64* ent, struct dirent64** out) {
    return readdir_r(dd, (struct dirent*)ent, (struct dirent**)out);
}
int closedir(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (!g_running || d->magic != DIR_MAGIC) {
        REAL(closedir);
        return realFn(dd);
    }
    int fd = d->fd;
    {
        Enter e;
        d->magic = 0;
        delete d;
    }
    return fd >= 0 ? close(fd) : 0;
}
int dirfd(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (!g_running || d->magic != DIR_MAGIC) {
        REAL(dirfd);
        return realFn(dd);
    }
    if (d->fd < 0) {
        errno = ENOTSUP;
    }
    return d->fd;
}
void rewinddir(DIR* dd) {
    SimDir* d = (SimDir*)dd;
    if (g_running && d->magic == DIR_MAGIC) {
        d->pos = 0;
    }
}

// ---------------------------------------------------------------- stdio (libstdc++ file buffers open this way)
static FILE* fopenImpl(const char* p, const char* mode) {
    Where w;
    int k = locate(p, w);
    bool plus = strchr(mode, '+') != nullptr;
    int flags = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC) : ((plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND);
    if (strchr(mode, 'x')) {
        flags |= O_EXCL;
    }
    if (k < 0) {
        errno = ENOENT;
        return nullptr;
    }
    if (k == 0) {
        if (!realAllowed("fopen", p, flags != O_RDONLY)) {
            return nullptr;
        }
        REAL(fopen);
        return realFn(p, mode);
    }
    int fd = simOpen(w, flags);
    if (fd < 0) {
        return nullptr;
    }
    Enter e;
    SimFile* f = (SimFile*)::malloc(sizeof(SimFile));
    f->magic = FILE_MAGIC;
    f->fd = fd;
    return (FILE*)f;
}
static inline bool isSimFile(FILE* f) {
    return g_running && f && f != stdin && f != stdout && f != stderr && ((SimFile*)f)->magic == FILE_MAGIC;
}
FILE* fopen(const char* p, const char* mode) {
    return fopenImpl(p, mode);
}
FILE* fopen64(const char* p, const char* mode) {
    return fopenImpl(p, mode);
}
FILE* fdopen(int fd, const char* mode) {
    if (isSimFd(fd)) {
        Enter e;
        SimFile* f = (SimFile*)::malloc(sizeof(SimFile));
        f->magic = FILE_MAGIC;
        f->fd = fd;
        return (FILE*)f;
    }
    REAL(fdopen);
    return realFn(fd, mode);
}
int fclose(FILE* f) {
    if (isSimFile(f)) {
        int fd = ((SimFile*)f)->fd;
        {
            Enter e;
            ((SimFile*)f)->magic = 0;
            ::free(f);
        }
        return simClose(fd);
    }
    REAL(fclose);
    return realFn(f);
}
int fileno(FILE* f) {
    if (isSimFile(f)) {
        return ((SimFile*)f)->fd;
    }
    REAL(fileno);
    return realFn(f);
}
int fflush(FILE* f) {
    if (isSimFile(f)) {
        return 0;
    }
    REAL(fflush);
    return realFn(f);
}
size_t fwrite(const void* p, size_t s, size_t n, FILE* f) {
    if (isSimFile(f)) {
        ssize_t r = simWrite(((SimFile*)f)->fd, p, s * n);
        return r < 0 || !s ? 0 : (size_t)r / s;
    }
    REAL(fwrite);
    return realFn(p, s, n, f);
}
size_t fread(void* p, size_t s, size_t n, FILE* f) {
    if (isSimFile(f)) {
        ssize_t r = simRead(((SimFile*)f)->fd, p, s * n);
        return r < 0 || !s ? 0 : (size_t)r / s;
    }
    REAL(fread);
    return realFn(p, s, n, f);
}
int setvbuf(FILE* f, char* b, int m, size_t n) {
    if (isSimFile(f)) {
        return 0;
    }
    REAL(setvbuf);
    return realFn(f, b, m, n);
}

int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (n == 1 && isSimFd(p->fd)) {
        p->revents = POLLIN;
        return 1;
    }
    REAL(poll);
    return realFn(p, n, timeout);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (isSimFd(fd)) {
        Fd* f = fdGet(fd);
        if (f && req == FIONREAD) {
            int64_t left = (int64_t)f->disk->inodes[f->ino]->data.size() - f->pos;
            *(int*)a = left < 0 ? 0 : (int)left;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return (int)ret(raw::sc3(SYS_ioctl, fd, (long)req, (long)a));
}
static int fcntlImpl(int fd, int cmd, void* a) {
    if (!isSimFd(fd)) {
        return (int)ret(raw::sc3(SYS_fcntl, fd, cmd, (long)a));
    }
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    struct flock* fl = (struct flock*)a;
    switch (cmd) {
    case F_GETFD:
    case F_SETFD:
    case F_SETFL:
        return 0;
    case F_GETFL:
        return f->rd && f->wr ? O_RDWR : f->wr ? O_WRONLY : O_RDONLY;
    case F_SETLK:
    case F_SETLKW:
        if (fl->l_type == F_WRLCK && !f->wr) {
            errno = EBADF;
            return -1;
        }
        return simLockOp(fd, f->proc, fl->l_type, cmd == F_SETLKW, fl);
    case F_GETLK:
        return simLockOp(fd, f->proc, -1, false, fl);
    case F_OFD_SETLK:
    case F_OFD_SETLKW:
        return simLockOp(fd, (1LL << 32) | fd, fl->l_type, cmd == F_OFD_SETLKW, fl);
    case F_OFD_GETLK:
        return simLockOp(fd, (1LL << 32) | fd, -1, false, fl);
    }
    errno = EINVAL;
    return -1;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void* a = va_arg(ap, void*);
    va_end(ap);
    return fcntlImpl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void* a = va_arg(ap, void*);
    va_end(ap);
    return fcntlImpl(fd, cmd, a);
}
int flock(int fd, int op) {
    if (!isSimFd(fd)) {
        return (int)ret(raw::sc3(SYS_flock, fd, op));
    }
    if (op & LOCK_UN) {
        return simLockOp(fd, (1LL << 32) | fd, F_UNLCK, false, nullptr);
    }
    int r = simLockOp(fd, (1LL << 32) | fd, F_WRLCK, !(op & LOCK_NB), nullptr);
    if (r < 0 && errno == EAGAIN) {
        errno = EWOULDBLOCK;
    }
    return r;
}
int lockf(int fd, int cmd, off_t) {
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return -1;
    }
    if (cmd == F_ULOCK) {
        return simLockOp(fd, f->proc, F_UNLCK, false, nullptr);
    }
    return simLockOp(fd, f->proc, F_WRLCK, cmd == F_LOCK, nullptr);
}
int dup(int fd) {
    if (!isSimFd(fd)) {
        return (int)ret(raw::sc3(SYS_dup, fd));
    }
    errno = EMFILE;
    return -1;
}

// ---------------------------------------------------------------- mapped files
static void* mmapImpl(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (!isSimFd(fd)) {
        return (void*)ret(raw::sc6(SYS_mmap, (long)addr, (long)len, prot, flags, fd, off));
    }
    Enter e0;
    Fd* f = fdGet(fd);
    if (!f) {
        errno = EBADF;
        return MAP_FAILED;
    }
    std::string path;
    {
        Enter e;
        path = f->path;
    }
    int k = opStart(OC_MMAP, path);
    Enter e;
    f = fdGet(fd);
    if (k || !f || len == 0) {
        errno = k ? (k == F_EMFILE ? ENOMEM : faultErrno(k)) : EINVAL;
        return MAP_FAILED;
    }
    size_t sz = (len + 4095) & ~(size_t)4095;
    void* p = (void*)raw::sc6(SYS_mmap, (long)g_mapNext, (long)sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000, -1, 0);
    if (p != (void*)g_mapNext) {
        internalError("cannot place a mapping");
    }
    g_mapNext += sz + 65536;                 // addresses are never used again: stale accesses fault
    const std::string& s = f->disk->inodes[f->ino]->data;
    if ((size_t)off < s.size()) {
        memcpy(p, s.data() + off, std::min(len, s.size() - (size_t)off));
    }
    if (!(prot & PROT_WRITE)) {
        raw::sc3(SYS_mprotect, (long)p, (long)sz, PROT_READ);
    }
    MapEnt m;
    m.len = len;
    m.proc = f->proc;
    m.path = path;
    (*g_maps)[(uintptr_t)p] = m;
    opEnd(OC_MMAP, path, 0);
    return p;
}
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    return mmapImpl(addr, len, prot, flags, fd, off);
}
void* mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
    return mmapImpl(addr, len, prot, flags, fd, off);
}
int munmap(void* p, size_t len) {
    if (g_maps && g_running) {
        Enter e;
        std::map<uintptr_t, MapEnt>::iterator it = g_maps->find((uintptr_t)p);
        if (it != g_maps->end()) {
            g_maps->erase(it);
        }
    }
    return (int)ret(raw::sc3(SYS_munmap, (long)p, (long)len));
}
ssize_t sendfile64(int out, int in, off_t* off, size_t n) {
    if (!isSimFd(in) && !isSimFd(out)) {
        return ret(raw::sc6(SYS_sendfile, out, in, (long)off, (long)n, 0, 0));
    }
    errno = EINVAL;       // the caller falls back to read and write
    return -1;
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) {
    return sendfile64(out, in, off, n);
}
ssize_t copy_file_range(int, off_t*, int, off_t*, size_t, unsigned) {
    errno = EXDEV;
    return -1;
}

int simFutex(int* addr, int op, int val, const struct timespec* ts);
ssize_t getrandom(void* b, size_t n, unsigned flags) {
    if (!g_running) {
        return ret(raw::sc3(SYS_getrandom, (long)b, (long)n, flags));
    }
    memset(b, 0x5a, n);
    return (ssize_t)n;
}
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; ++i) {
        a[i] = va_arg(ap, long);
    }
    va_end(ap);
    if (g_running) {
        if (nr == SYS_futex) {
            return simFutex((int*)a[0], (int)a[1], (int)a[2], (const struct timespec*)a[3]);
        }
        if (nr == SYS_statx) {
            return statx((int)a[0], (const char*)a[1], (int)a[2], (unsigned)a[3], (struct statx*)a[4]);
        }
        if (nr == SYS_getrandom) {
            return getrandom((void*)a[0], (size_t)a[1], (unsigned)a[2]);
        }
        if (nr == SYS_copy_file_range || nr == SYS_renameat2) {
            errno = ENOSYS;
            return -1;
        }
        if (nr == SYS_gettid) {
            return 1000 + g_cur->tid;
        }
        sim::stat("sim.other_syscall");
    }
    return ret(raw::sc6(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
}
pid_t getpid(void) {
    return g_running ? 1000 : (pid_t)raw::sc3(SYS_getpid);
}

}
