// C10: locks exclude. Several processes (mounts of one disk with their own record locks) and threads compete for the
// locks of every lock factory, with crashes of whole processes, and open writers and deleting readers over one index.
#include "model.h"
#include "plan.h"
#include "world.h"
#include <memory>
#include "RAMDirectory.h"
#include "MMapDirectory.h"
#include "SimpleFSDirectory.h"
#include "NativeFSLockFactory.h"
#include "SimpleFSLockFactory.h"
#include "SingleInstanceLockFactory.h"
#include "Lock.h"
#include "WhitespaceAnalyzer.h"
#include "SerialMergeScheduler.h"
using namespace lu;
using namespace Lucene;

namespace {
enum LockOp { L_TRY = 1, L_WAIT, L_RELEASE, L_ISLOCKED, L_FORCE, L_CRASH, L_SLEEP, W_OPEN, W_ADD, W_COMMIT, W_CLOSE, W_ROLLBACK, W_READ, W_DELETE, W_UNLOCK };
const char* lockOpName(int k) {
    static const char* n[] = {"?", "obtain", "obtain-with-timeout", "release", "isLocked", "release-not-held", "crash-process", "sleep", "open-writer", "add", "commit", "close-writer", "rollback", "open-reader", "delete-by-reader", "unlock"};
    return k >= 0 && k <= 15 ? n[k] : "?";
}
enum { NATIVE = 0, SIMPLE, SINGLE };

struct Proc {
    std::string mnt;
    int n = 0;              // number of the process in the simulator
    LockFactoryPtr factory; // raw locks
    DirectoryPtr dir;       // writers
    LockPtr shared;
    bool crash = false;
    int parked = 0, actors = 0, epoch = 0;
};
std::vector<LuceneObjectPtr>& graveyard() {
    static std::vector<LuceneObjectPtr>* g = new std::vector<LuceneObjectPtr>(); // objects of crashed processes: never destroyed
    return *g;
}

struct Lockers {
    const Plan& p;
    sim::Disk* disk = nullptr;
    int kind, nth, nproc, mounts = 0;
    std::vector<Proc> procs;
    std::vector<LockPtr> lock;        // of each actor
    bool timing;
    // the model
    int holder = -1;                  // actor that surely holds the lock
    int active = 0;                   // calls on locks that are running
    uint64_t started = 0, changes = 0;
    int finished = 0;
    // index mode
    bool index;
    std::vector<uint64_t> committed;
    struct Session {
        IndexWriterPtr w;
        std::vector<uint64_t> docs;
    };
    std::vector<Session> ses;
    uint64_t nextId = 1;

    explicit Lockers(const Plan& plan) : p(plan) {
        kind = (int)p.get("kind");
        nth = (int)p.get("threads", 2);
        nproc = (int)p.get("procs", 1);
        index = p.get("index") != 0;
        timing = !p.get("s.jump_ppm") && !p.get("s.stall_ppm") && !p.get("s.clock_ppm");
    }
    Proc& procOf(int t) { return procs[(size_t)(t % nproc)]; }

    void boot(Proc& x) {
        x.n = 10 + mounts;
        x.mnt = "p" + std::to_string(mounts++);
        sim::mount(x.mnt, disk, x.n);
        x.shared.reset();
        String path = L"/sim/" + wide(x.mnt) + L"/idx";
        LockFactoryPtr f;
        if (kind == NATIVE) {
            f = newLucene<NativeFSLockFactory>(index ? path : L"/sim/" + wide(x.mnt) + L"/locks");
        } else if (kind == SIMPLE) {
            f = newLucene<SimpleFSLockFactory>(index ? path : L"/sim/" + wide(x.mnt) + L"/locks");
        } else if (!x.factory) {
            f = newLucene<SingleInstanceLockFactory>();
        }
        if (f) {
            x.factory = f;
        }
        if (index) {
            LockFactoryPtr lf;
            if (kind != NATIVE || p.get("factory")) {
                lf = x.factory; // otherwise the default, which is a NativeFSLockFactory
            }
            if (p.get("dir") == 2) {
                x.dir = newLucene<MMapDirectory>(path, lf);
            } else {
                x.dir = newLucene<SimpleFSDirectory>(path, lf);
            }
        }
    }
    LockPtr newLock(int t, const Op& op) {
        Proc& x = procOf(t);
        if (p.get("prefix") && !index) {
            x.factory->setLockPrefix(L"pre");
        }
        if (op.c % 5 == 0 && !x.shared) {
            LockPtr made = x.factory->makeLock(L"test.lock"); // others may run meanwhile
            if (!x.shared) {
                x.shared = made;
            }
        }
        return op.c % 5 == 0 ? x.shared : x.factory->makeLock(L"test.lock");
    }
    // a call on a lock: `free` tells afterwards whether nobody else did anything meanwhile and the lock was free
    struct Call {
        Lockers& k;
        bool alone;
        uint64_t s, c;
        explicit Call(Lockers& x) : k(x) {
            alone = k.active == 0;
            ++k.active;
            s = ++k.started;
            c = k.changes;
        }
        bool undisturbed() { return alone && k.started == s && k.changes == c; }
        ~Call() { --k.active; }
    };
    void granted(int t, const char* what) {
        sim::NoPreempt np;
        if (holder != -1) {
            sim::violation("two-holders", std::string(what) + " by actor " + std::to_string(t) + " (process " + std::to_string(t % nproc) + ") was granted while actor " + std::to_string(holder) + " (process " + std::to_string(holder % nproc) + ") holds the lock");
        }
        holder = t;
        ++changes;
        sim::stat("granted");
    }
    void given(int t) {
        sim::NoPreempt np;
        if (holder != t) {
            sim::internalError("releasing a lock that is not held");
        }
        holder = -1;
        ++changes;
    }
    void checkTime(const char* what, int64_t ns, int64_t lo, int64_t hi) {
        if (timing && (ns < lo || ns > hi)) {
            sim::violation("lock-timeout", std::string(what) + " took " + std::to_string(ns / 1000000) + " ms, expected " + std::to_string(lo / 1000000) + " to " + std::to_string(hi / 1000000));
        }
    }
    void refused(int t, Call& c, const char* what) {
        if (c.undisturbed() && holder == -1) {
            sim::violation("free-lock-refused", std::string(what) + " by actor " + std::to_string(t) + " failed although nobody holds or tries the lock");
        }
        sim::stat("refused");
    }
    void crash(int t) {
        Proc& x = procOf(t);
        if (holder != -1 && holder % nproc == t % nproc) {
            holder = -1;
            if (kind == SIMPLE) {
                // stale lock files are removed by hand, as documented
                sim::removeFile(disk, index ? "idx/write.lock" : p.get("prefix") ? "locks/pre-test.lock" : "locks/test.lock");
            }
        }
        ++changes;
        for (int a = 0; a < nth; ++a) {
            if (a % nproc == t % nproc) {
                if (lock[(size_t)a]) {
                    graveyard().push_back(lock[(size_t)a]);
                    lock[(size_t)a].reset();
                }
                if (ses[(size_t)a].w) {
                    graveyard().push_back(ses[(size_t)a].w);
                    ses[(size_t)a].w.reset();
                }
            }
        }
        if (x.shared) {
            graveyard().push_back(x.shared);
        }
        if (x.dir) {
            graveyard().push_back(x.dir);
        }
        graveyard().push_back(x.factory);
        sim::dropProc(x.n);
        boot(x);
        x.crash = false;
        x.parked = 0;
        ++x.epoch;
        sim::stat("process_crashes");
    }
    void parkIfCrashing(int t) {
        Proc& x = procOf(t);
        while (x.crash) {
            if (++x.parked >= x.actors) {
                crash(t);
            } else {
                for (int n = x.epoch; x.epoch == n;) {
                    sim::sleepNs(1000000);
                }
            }
        }
    }
    void leave(int t) {
        Proc& x = procOf(t);
        --x.actors;
        if (x.crash && x.actors > 0 && x.parked >= x.actors) {
            crash(t);
        }
    }
    void rawOp(int t, const Op& op) {
        LockPtr& l = lock[(size_t)t];
        bool mine = holder == t;
        if (!mine && (!l || op.b % 3 == 0)) {
            noThrow("makeLock", [&] { l = newLock(t, op); });
        }
        switch (op.kind) {
        case L_TRY: {
            Call c(*this);
            bool ok = false;
            int64_t t0 = sim::now();
            noThrow("obtain()", [&] { ok = l->obtain(); });
            checkTime("obtain()", sim::now() - t0, 0, 900000000LL);
            if (ok) {
                granted(t, "obtain()");
            } else if (!mine) {
                refused(t, c, "obtain()");
            }
            break;
        }
        case L_WAIT: {
            if (mine) {
                break;
            }
            Call c(*this);
            static const int to[] = {0, 1, 500, 1000, 1500, 2500, 5000, -1};
            int timeout = to[op.a % (op.b % 4 == 0 && p.get("forever") ? 8 : 7)];
            int64_t t0 = sim::now();
            bool ok = false, failed = false;
            try {
                ok = l->obtain(timeout);
            } catch (LockObtainFailedException&) {
                failed = true;
            } catch (LuceneException& e) {
                sim::violation("unexpected-exception", "obtain(" + std::to_string(timeout) + "): " + excText(e));
            }
            int64_t ns = sim::now() - t0;
            if (failed && timeout == -1) {
                sim::violation("lock-timeout", "waiting forever gave up");
            }
            if (failed) {
                checkTime("a failing obtain with timeout", ns, (int64_t)(timeout / 1000) * 1000000000LL, (int64_t)(timeout / 1000 + 1) * 1000000000LL + 900000000LL);
                refused(t, c, "obtain(timeout)");
            } else if (!ok) {
                sim::violation("lock-timeout", "obtain(" + std::to_string(timeout) + ") returned false instead of throwing LockObtainFailedException");
            } else {
                granted(t, "obtain(timeout)");
                sim::stat("granted_after_waiting", ns > 900000000LL);
            }
            break;
        }
        case L_RELEASE:
            if (mine) {
                given(t);
                Call c(*this);
                noThrow("release()", [&] { l->release(); });
                sim::stat("released");
            }
            break;
        case L_ISLOCKED: {
            Call c(*this);
            uint64_t ch = changes;
            int h = holder;
            bool b = false;
            noThrow("isLocked()", [&] { b = l->isLocked(); });
            if (!b && h != -1 && changes == ch) {
                sim::violation("isLocked", "isLocked() says no while actor " + std::to_string(h) + " holds the lock");
            }
            if (b && h == -1 && c.undisturbed()) {
                sim::violation("isLocked", "isLocked() says yes although nobody holds the lock");
            }
            break;
        }
        case L_FORCE:
            // releasing a lock somebody else holds must fail (for the other factories it is a forced unlock)
            if (kind == NATIVE && !mine && l != procOf(t).shared) {
                Call c(*this);
                uint64_t ch = changes;
                int h = holder;
                bool threw = false;
                try {
                    l->release();
                } catch (LockReleaseFailedException&) {
                    threw = true;
                } catch (LuceneException& e) {
                    sim::violation("unexpected-exception", "release(): " + excText(e));
                }
                if (!threw && h != -1 && changes == ch) {
                    sim::violation("foreign-release", "release() of a lock that actor " + std::to_string(h) + " holds did not fail");
                }
                if (threw && h == -1 && c.undisturbed()) {
                    sim::violation("foreign-release", "release() of a free lock failed");
                }
                sim::stat("foreign_releases");
            }
            break;
        }
    }
    void indexOp(int t, const Op& op) {
        Session& s = ses[(size_t)t];
        DirectoryPtr d = procOf(t).dir;
        switch (op.kind) {
        case W_OPEN: {
            if (s.w) {
                break;
            }
            Call c(*this);
            static const int to[] = {0, 0, 1000, 2000};
            IndexWriter::setDefaultWriteLockTimeout(to[op.a % 4]);
            int64_t t0 = sim::now();
            try {
                s.w = newLucene<IndexWriter>(d, newLucene<WhitespaceAnalyzer>(), IndexWriter::MaxFieldLengthUNLIMITED);
                granted(t, "opening an IndexWriter");
                s.w->setMergeScheduler(newLucene<SerialMergeScheduler>());
                s.w->setMaxBufferedDocs(2 + (int)(op.b % 4));
                s.docs = committed;
            } catch (LockObtainFailedException&) {
                refused(t, c, "opening an IndexWriter");
                checkTime("opening an IndexWriter over a locked index", sim::now() - t0, 0, 5000000000LL);
            } catch (LuceneException& e) {
                sim::violation("unexpected-exception", "opening an IndexWriter: " + excText(e));
            }
            if (s.w && s.w->numDocs() != (int)committed.size()) {
                sim::violation("lost-commit", "a new IndexWriter sees " + std::to_string(s.w->numDocs()) + " documents, committed are " + seqStr(committed));
            }
            break;
        }
        case W_ADD:
            if (s.w) {
                noThrow("addDocument", [&] {
                    uint64_t u = makeUid(t, nextId++, 0);
                    s.w->addDocument(makeDoc(u));
                    s.docs.push_back(u);
                });
            }
            break;
        case W_COMMIT:
            if (s.w) {
                ++changes;
                Call c(*this);
                noThrow("commit", [&] { s.w->commit(); });
                committed = s.docs;
                ++changes;
                sim::stat("commits");
            }
            break;
        case W_CLOSE:
        case W_ROLLBACK:
            if (s.w) {
                if (op.kind == W_CLOSE) {
                    committed = s.docs;
                }
                given(t);
                Call c(*this);
                noThrow("closing the writer", [&] {
                    if (op.kind == W_CLOSE) {
                        // what close commits must be visible once the lock is free; until then others see old or new
                        s.w->close();
                    } else {
                        s.w->rollback();
                    }
                });
                s.w.reset();
                sim::stat("writers_closed");
            }
            break;
        case W_READ: {
            uint64_t ch = changes;
            std::vector<uint64_t> was = committed;
            bool act = active > 0;
            noThrow("opening a reader", [&] {
                IndexReaderPtr r = IndexReader::open(d, true);
                std::vector<uint64_t> u = readState(r).uids;
                if (!act && ch == changes && was == committed && holder != -2) {
                    expectSeq(u, was, "lost-commit", "a reader");
                }
                r->close();
            });
            break;
        }
        case W_DELETE: {
            if (s.w) {
                break;
            }
            Call c(*this);
            std::vector<uint64_t> u;
            IndexReaderPtr r;
            noThrow("opening a reader", [&] {
                r = IndexReader::open(d, false);
                u = readState(r).uids;
            });
            if (u.empty()) {
                noThrow("closing a reader", [&] { r->close(); });
                break;
            }
            if (op.a & 1) {
                sim::sleepNs((op.b % 3000) * 1000000LL);
            }
            size_t k = (size_t)(op.c % (int64_t)u.size());
            bool ok = false;
            try {
                ok = r->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)u[k]))) == 1;
            } catch (LockObtainFailedException&) {
                refused(t, c, "deleting by a reader");
            } catch (StaleReaderException&) {
                sim::stat("stale_readers");
                if (u == committed && c.undisturbed()) {
                    sim::violation("stale-reader", "StaleReaderException for a reader of the latest commit");
                }
            } catch (LuceneException& e) {
                sim::violation("unexpected-exception", "deleteDocuments of a reader: " + excText(e));
            }
            if (ok) {
                granted(t, "deleting by a reader");
                expectSeq(u, committed, "lost-commit", "a reader that got the write lock to delete is not current");
                u.erase(u.begin() + (std::ptrdiff_t)k);
                if (op.b % 3 == 0) {
                    sim::yield();
                }
                committed = u;
                given(t);
                sim::stat("reader_deletes");
            }
            noThrow("closing a reader", [&] { r->close(); });
            break;
        }
        case W_UNLOCK:
            if (kind == NATIVE && holder != t) {
                Call c(*this);
                uint64_t ch = changes;
                int h = holder;
                bool locked = false, threw = false;
                noThrow("isLocked", [&] { locked = IndexWriter::isLocked(d); });
                if (h != -1 && changes == ch && !locked) {
                    sim::violation("isLocked", "IndexWriter::isLocked says no while a writer is open");
                }
                try {
                    IndexWriter::unlock(d);
                } catch (LockReleaseFailedException&) {
                    threw = true;
                } catch (LuceneException& e) {
                    sim::violation("unexpected-exception", "unlock: " + excText(e));
                }
                if (!threw && h != -1 && changes == ch) {
                    sim::violation("foreign-release", "IndexWriter::unlock of a lock that another component holds did not fail");
                }
            }
            break;
        }
    }
    void body(int t) {
        for (const Op& op : p.ops) {
            if (op.th != t) {
                continue;
            }
            parkIfCrashing(t);
            sim::progress();
            sim::event(lockOpName(op.kind), t, op.a);
            if (op.kind == L_SLEEP) {
                sim::sleepNs((op.a % 3000) * 1000000LL);
            } else if (op.kind == L_CRASH) {
                if (kind != SINGLE) {
                    procOf(t).crash = true;
                    parkIfCrashing(t);
                }
            } else if (index) {
                indexOp(t, op);
            } else {
                rawOp(t, op);
            }
        }
        // an actor that leaves lets go
        parkIfCrashing(t);
        if (holder == t) {
            if (index) {
                indexOp(t, Op{t, W_CLOSE, 0, 0, 0});
            } else {
                rawOp(t, Op{t, L_RELEASE, 0, 1, 1});
            }
        }
        leave(t);
    }
    void run() {
        disk = sim::newDisk();
        sim::mount("base", disk, 1);
        procs.resize((size_t)nproc);
        lock.resize((size_t)nth);
        ses.resize((size_t)nth);
        for (Proc& x : procs) {
            boot(x);
        }
        for (int t = 0; t < nth; ++t) {
            ++procOf(t).actors;
        }
        setRichDocs(0);
        int64_t oldTimeout = IndexWriter::getDefaultWriteLockTimeout();
        if (index) {
            noThrow("creating the index", [&] {
                IndexWriterPtr w = newLucene<IndexWriter>(procs[0].dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
                w->close();
            });
        }
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t] { body(t); }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        // whoever comes last finds everything free and complete
        if (index) {
            noThrow("the last writer", [&] {
                IndexWriter::setDefaultWriteLockTimeout(0);
                IndexWriterPtr w = newLucene<IndexWriter>(procs[0].dir, newLucene<WhitespaceAnalyzer>(), IndexWriter::MaxFieldLengthUNLIMITED);
                w->close();
                IndexReaderPtr r = IndexReader::open(procs[0].dir, true);
                expectSeq(readState(r).uids, committed, "lost-commit", "at the end");
                r->close();
            });
        } else {
            noThrow("obtaining the lock at the end", [&] {
                LockPtr l = procs[0].factory->makeLock(L"test.lock");
                if (!l->obtain()) {
                    sim::violation("free-lock-refused", "at the end nobody holds the lock but it cannot be obtained");
                }
                l->release();
            });
        }
        IndexWriter::setDefaultWriteLockTimeout(oldTimeout);
    }
};

void gen(Plan& p, sim::Rng& r, int tier) {
    p.set("kind", r.below(5) < 3 ? NATIVE : 1 + (int64_t)r.below(2));
    p.set("index", r.below(2));
    p.set("factory", r.below(2));
    p.set("dir", 1 + (int64_t)r.below(2));
    p.set("prefix", r.below(3) == 0);
    genSched(p, r, true);
    static const int bb[] = {0, 30, 100, 400, 3000};
    p.set("s.bb", bb[r.below(5)]);
    if (r.below(2)) {
        p.set("s.stall_ppm", 0);
        p.set("s.jump_ppm", 0);
        p.set("s.clock_ppm", 0);
    }
    int th = 2 + (int)r.below(4);
    p.set("procs", p.get("kind") == SINGLE ? 1 : 1 + (int64_t)r.below((uint64_t)th));
    OpMix m;
    if (p.get("index")) {
        m.add(W_OPEN, 16).add(W_ADD, 16).add(W_COMMIT, 6).add(W_CLOSE, 6).add(W_ROLLBACK, 3).add(W_READ, 4).add(W_DELETE, 8).add(W_UNLOCK, 3).add(L_CRASH, 2).add(L_SLEEP, 4);
    } else {
        p.set("forever", r.below(3) == 0); // an actor that waits forever keeps its process from crashing
        m.add(L_TRY, 20).add(L_WAIT, 8).add(L_RELEASE, 20).add(L_ISLOCKED, 8).add(L_FORCE, 4).add(L_CRASH, p.get("forever") ? 0 : 2).add(L_SLEEP, 5);
    }
    genOps(p, r, m, th, 5 + (int)r.below(tier ? 60 : 25), 2);
}
void run(const Plan& p) {
    Lockers k(p);
    k.run();
}
RegisterProp reg("C10", gen, run, lockOpName);
}
