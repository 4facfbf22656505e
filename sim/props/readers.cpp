// C13: deletes, undeletes and norms set through readers. C14: reopened, cloned and shared readers.
#include "world.h"
#include "IndexFileNameFilter.h"
#include <algorithm>
#include <memory>
using namespace lu;
using namespace Lucene;

namespace {
enum ROp { R_OPEN = 1, R_DEL, R_DELTERM, R_UNDEL, R_NORM, R_FLUSH, R_CLOSE, R_REOPEN, R_CLONE, R_INCREF, R_DECREF, R_CHECK, R_WRITE, R_SLEEP, M_REOPEN, M_CLONE, M_OPEN, M_READ, M_CLOSE, M_COMMIT, S_DEL, S_NORM, S_FLUSH, S_READ, R_SWAP };
const char* readerOpName(int k) {
    static const char* n[] = {"?", "open", "delete", "delete-term", "undelete-all", "set-norm", "flush", "close", "reopen", "clone", "incref", "decref", "check", "writer-session", "sleep", "reopen-shared", "clone-shared", "open-shared", "read-shared", "close-shared", "change-index", "delete-through-shared", "set-norm-through-shared", "flush-shared", "read-through-shared", "swap-deletions"};
    return k >= 0 && k <= 25 ? n[k] : "?";
}
struct DocM {
    uint64_t uid;
    bool del;
};
struct View {
    std::vector<DocM> phys;
    NormOverrides norms;
    std::vector<uint64_t> live() const {
        std::vector<uint64_t> v;
        for (const DocM& d : phys) {
            if (!d.del) {
                v.push_back(d.uid);
            }
        }
        return v;
    }
};
struct Rd {
    IndexReaderPtr r;
    View v;
    bool ro = true;
    int64_t ver = 0;
    bool pending = false, lock = false, stale = false, failed = false;
    int refs = 1;
    bool closed = false; // close() was called (a reference given up)
    int name = 0;
};
typedef std::shared_ptr<Rd> RdPtr;
struct CommitW {
    uint64_t begin, end;
    View v;
};

struct ReaderWorld : World {
    View com;
    int64_t curVer = 0;
    RdPtr locker;
    std::vector<RdPtr> rs;
    std::vector<CommitW> log;
    uint64_t nextId = 1;
    int names = 0;
    bool faults = false;

    explicit ReaderWorld(const Plan& p) : World(p) {}

    uint64_t seq() { return disk ? sim::diskSeq(disk) : 0; }
    std::string who(const RdPtr& x) { return std::string(x->ro ? "read-only" : "writable") + " reader #" + std::to_string(x->name); }

    void check(const RdPtr& x, int bits, const std::string& c) {
        std::string ct = who(x) + " " + c;
        noThrow(ct, [&] {
            Snapshot s = readState(x->r);
            expectSeq(s.uids, x->v.live(), "wrong-view", ct);
            if (x->r->maxDoc() != (int)x->v.phys.size()) {
                sim::violation("wrong-view", ct + ": maxDoc is " + std::to_string(x->r->maxDoc()) + " not " + std::to_string(x->v.phys.size()));
            }
            for (size_t i = 0; i < x->v.phys.size(); ++i) {
                if (x->r->isDeleted((int)i) != x->v.phys[i].del) {
                    sim::violation("wrong-view", ct + ": isDeleted(" + std::to_string(i) + ") is wrong");
                }
            }
            bool any = s.uids.size() != x->v.phys.size();
            if (x->r->hasDeletions() != any) {
                sim::violation("wrong-view", ct + ": hasDeletions() is " + std::to_string(!any) + " but " + (any ? "some" : "no") + " documents are deleted");
            }
            if (x->r->numDeletedDocs() != (int)(x->v.phys.size() - s.uids.size())) {
                sim::violation("wrong-view", ct + ": numDeletedDocs()");
            }
            if (bits) {
                setNormOverrides(&x->v.norms);
                verifyReader(x->r, s, bits, hrng, ct.c_str());
                setNormOverrides(nullptr);
            }
        });
    }
    void checkAll(const std::string& c) {
        for (const RdPtr& x : rs) {
            check(x, hrng.below(8) == 0 ? V_ALL : hrng.below(2) ? V_NORMS : 0, c);
        }
    }
    RdPtr adopt(const IndexReaderPtr& r, bool ro, const View& v, int64_t ver) {
        RdPtr x(new Rd());
        x->r = r;
        x->ro = ro;
        x->v = v;
        x->ver = ver;
        x->name = ++names;
        rs.push_back(x);
        return x;
    }
    void committed(const View& v, uint64_t begin, const std::string& c) {
        com = v;
        CommitW w = {begin, seq(), v};
        log.push_back(w);
        noThrow(c, [&] {
            int64_t n = IndexReader::getCurrentVersion(dir);
            if (n <= curVer) {
                sim::violation("version", c + ": the version went from " + std::to_string(curVer) + " to " + std::to_string(n));
            }
            curVer = n;
        });
    }
    // reads which documents are there physically, with the deleted ones
    void relearn(const std::vector<uint64_t>& live, const std::string& c, uint64_t begin) {
        noThrow(c, [&] {
            IndexReaderPtr r = IndexReader::open(dir, true);
            View v;
            std::set<uint64_t> was;
            for (const DocM& d : com.phys) {
                was.insert(d.uid);
            }
            for (int i = 0; i < r->maxDoc(); ++i) {
                DocumentPtr d = r->document(i);
                DocM m;
                m.uid = (uint64_t)StringUtils::toLong(d->get(L"uid").substr(1));
                m.del = r->isDeleted(i);
                v.phys.push_back(m);
                for (int f = 0; f < 3; ++f) {
                    NormOverrides::iterator o = com.norms.find(std::make_pair(m.uid, f));
                    if (o != com.norms.end()) {
                        v.norms.insert(*o);
                    }
                }
            }
            r->close();
            expectSeq(v.live(), live, "wrong-view", c);
            committed(v, begin, c);
        });
    }
    // runs an operation that may need the write lock; true if it must have been (and was) executed
    bool modify(const RdPtr& x, const char* what, const std::function<void()>& fn) {
        int want = 0;
        if (x->ro) {
            want = LuceneException::UnsupportedOperation;
        } else if (x->stale) {
            want = LuceneException::StaleReader;
        } else if (!x->lock && locker) {
            want = LuceneException::LockObtainFailed;
        } else if (!x->lock && x->ver < curVer) {
            want = LuceneException::StaleReader;
            x->stale = true;
        }
        int got = 0;
        std::string text;
        try {
            fn();
        } catch (LuceneException& e) {
            got = e.getType();
            text = excText(e);
        }
        if (got != want) {
            sim::violation("wrong-refusal", std::string(what) + " through " + who(x) + " ended with exception type " + std::to_string(got) + " (" + text + "), expected " + std::to_string(want) + (locker ? "; the lock is held by reader #" + std::to_string(locker->name) : std::string("; nobody holds the lock")) + "; version " + std::to_string(x->ver) + " of " + std::to_string(curVer));
        }
        if (want) {
            sim::stat(want == LuceneException::StaleReader ? "refused_stale" : want == LuceneException::LockObtainFailed ? "refused_locked" : "refused_read_only");
            return false;
        }
        x->lock = true;
        x->pending = true;
        locker = x;
        return true;
    }
    void afterCommit(const RdPtr& x, uint64_t begin) {
        if (!x->pending) {
            return;
        }
        committed(x->v, begin, "commit of " + who(x));
        x->ver = curVer;
        x->pending = x->lock = false;
        locker.reset();
        sim::stat("reader_commits");
    }
    bool flushOrClose(const RdPtr& x, bool close, bool withFaults) {
        uint64_t b = seq();
        int before = sim::faultsFired();
        if (withFaults) {
            sim::enableFaults(true);
        }
        bool ok = false;
        std::string text;
        try {
            if (close) {
                x->r->close();
            } else {
                x->r->flush();
            }
            ok = true;
        } catch (LuceneException& e) {
            text = excText(e);
        }
        if (withFaults) {
            sim::enableFaults(false);
        }
        if (!ok) {
            if (sim::faultsFired() == before || !x->pending) {
                sim::violation("unexpected-exception", std::string(close ? "closing " : "flushing ") + who(x) + ": " + text);
            }
            x->failed = true;
            sim::stat("commits_failed_by_faults");
            // nothing of it may be visible, and the reader still has all of it
            noThrow("after a failed commit", [&] {
                IndexReaderPtr r = IndexReader::open(dir, true);
                expectSeq(readState(r).uids, com.live(), "failed-commit-visible", "a failed commit of " + who(x));
                r->close();
            });
            check(x, V_NORMS, "after its commit failed");
            CommitW w = {b, (uint64_t)-1, x->v}; // a crash may still bring it back
            log.push_back(w);
            return false;
        }
        afterCommit(x, b);
        return true;
    }
    void dropRef(const RdPtr& x, bool close, bool withFaults) {
        if (x->refs > 1) {
            noThrow("giving up a reference", [&] {
                if (close) {
                    x->r->close();
                } else {
                    x->r->decRef();
                }
            });
            --x->refs;
            x->closed = x->closed || close;
            return;
        }
        if (!close) {
            uint64_t b = seq();
            noThrow("giving up the last reference", [&] { x->r->decRef(); });
            afterCommit(x, b);
        } else if (!flushOrClose(x, true, withFaults)) {
            return;
        }
        x->refs = 0;
        try {
            x->r->document(0);
            sim::violation("closed-reader", who(x) + " still answers after it was closed");
        } catch (AlreadyClosedException&) {
        } catch (LuceneException& e) {
            sim::violation("closed-reader", who(x) + " after it was closed: " + excText(e));
        }
        rs.erase(std::find(rs.begin(), rs.end(), x));
        sim::stat("readers_closed");
    }
    RdPtr cloneOf(const RdPtr& x, const IndexReaderPtr& n, bool ro) {
        RdPtr y = adopt(n, ro, x->v, x->ver);
        y->failed = x->failed;
        if (!ro && x->lock) {
            y->lock = true;
            y->pending = x->pending;
            x->lock = x->pending = false;
            locker = y;
        }
        return y;
    }
    void session(const Op& op) {
        uint64_t b = seq();
        IndexWriterPtr x;
        try {
            x = openWriter(dir, false);
        } catch (LockObtainFailedException&) {
            if (!locker) {
                sim::violation("wrong-refusal", "a writer was refused although nobody holds the lock");
            }
            sim::stat("writers_refused");
            return;
        } catch (LuceneException& e) {
            sim::violation("unexpected-exception", "opening a writer: " + excText(e));
        }
        if (locker) {
            sim::violation("two-holders", "a writer was opened while " + who(locker) + " holds the lock");
        }
        std::vector<uint64_t> live = com.live();
        bool changed = false;
        noThrow("a writer session", [&] {
            sim::Rng r((uint64_t)op.a * 31 + (uint64_t)op.b);
            int n = 1 + (int)r.below(p.get("session", 6));
            for (int i = 0; i < n; ++i) {
                switch (r.below(8)) {
                case 0:
                    if (!live.empty()) {
                        size_t k = r.below(live.size());
                        x->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)live[k])));
                        live.erase(live.begin() + (std::ptrdiff_t)k);
                        changed = true;
                    }
                    break;
                case 1:
                    if (r.below(6) == 0) {
                        x->optimize(1 + (int)r.below(3));
                        changed = true;
                    } else if (r.below(5) == 0) {
                        x->expungeDeletes();
                        changed = true;
                    }
                    break;
                default: {
                    uint64_t u = makeUid(0, nextId++, 0);
                    x->addDocument(makeDoc(u));
                    live.push_back(u);
                    changed = true;
                    break;
                }
                }
            }
            if (op.c % 5 == 0) {
                x->rollback();
                live = com.live();
                changed = false;
            } else {
                x->close();
            }
        });
        if (IndexReader::getCurrentVersion(dir) != curVer) {
            relearn(live, "after a writer session", b);
        } else if (live != com.live()) {
            sim::violation("lost-commit", "a writer session changed documents but not the version");
        }
        sim::stat("writer_sessions");
    }
    void step(const Op& op) {
        sim::event(readerOpName(op.kind), op.a, op.b);
        sim::progress();
        if (sim::g_verbose) {
            std::string s;
            for (const RdPtr& x : rs) {
                s += " #" + std::to_string(x->name) + (x->ro ? "ro" : "rw") + (x->lock ? "L" : "") + (x->pending ? "P" : "") + "v" + std::to_string(x->ver);
            }
            sim::logf("%s %lld %lld %lld: %s", readerOpName(op.kind), (long long)op.a, (long long)op.b, (long long)op.c, s.c_str());
        }
        RdPtr x;
        if (!rs.empty()) {
            x = rs[(size_t)op.a % rs.size()];
        }
        if (op.kind == R_WRITE) {
            session(op);
            checkAll("after a writer session");
            return;
        }
        if (op.kind == R_OPEN) {
            if (rs.size() < (size_t)p.get("slots", 5)) {
                bool ro = op.b & 1;
                noThrow("opening a reader", [&] {
                    IndexReaderPtr r = IndexReader::open(dir, ro);
                    adopt(r, ro, com, curVer);
                    check(rs.back(), V_NORMS, "just opened");
                    if (r->getVersion() != curVer) {
                        sim::violation("version", "a new reader has version " + std::to_string(r->getVersion()) + " not " + std::to_string(curVer));
                    }
                });
            }
            return;
        }
        if (!x) {
            return;
        }
        switch (op.kind) {
        case R_DEL: {
            if (x->v.phys.empty()) {
                break;
            }
            size_t d = (size_t)op.b % x->v.phys.size();
            if (modify(x, "deleteDocument", [&] { x->r->deleteDocument((int)d); })) {
                x->v.phys[d].del = true;
                sim::stat("reader_deletes");
            }
            break;
        }
        case R_DELTERM: {
            // a group, or one document
            bool grp = op.c & 1;
            String text = grp ? grpText(0, (int)(op.b % 3)) : L"u" + StringUtils::toString((int64_t)makeUid(0, 1 + (uint64_t)op.b % nextId, 0));
            int n = 0;
            std::vector<size_t> hit;
            for (size_t i = 0; i < x->v.phys.size(); ++i) {
                const DocM& d = x->v.phys[i];
                if (!d.del && (grp ? groupOf(d.uid) == op.b % 3 : d.uid == makeUid(0, 1 + (uint64_t)op.b % nextId, 0))) {
                    hit.push_back(i);
                }
            }
            TermPtr t = newLucene<Term>(grp ? L"grp" : L"uid", text);
            if (hit.empty()) {
                noThrow("deleteDocuments", [&] { n = x->r->deleteDocuments(t); });
                if (n) {
                    sim::violation("wrong-view", "deleteDocuments through " + who(x) + " deleted " + std::to_string(n) + " documents, none matches");
                }
            } else if (modify(x, "deleteDocuments", [&] { n = x->r->deleteDocuments(t); })) {
                if (n != (int)hit.size()) {
                    sim::violation("wrong-view", "deleteDocuments through " + who(x) + " deleted " + std::to_string(n) + " documents, " + std::to_string(hit.size()) + " match");
                }
                for (size_t i : hit) {
                    x->v.phys[i].del = true;
                }
                sim::stat("reader_deletes", n);
            }
            break;
        }
        case R_UNDEL:
            if (modify(x, "undeleteAll", [&] { x->r->undeleteAll(); })) {
                for (DocM& d : x->v.phys) {
                    d.del = false;
                }
                sim::stat("undeletes");
            }
            break;
        case R_SWAP: {
            // all deletions are undone, and as many other documents deleted
            std::vector<size_t> was, other;
            for (size_t i = 0; i < x->v.phys.size(); ++i) {
                (x->v.phys[i].del ? was : other).push_back(i);
            }
            if (was.empty() || other.empty() || !modify(x, "undeleteAll", [&] { x->r->undeleteAll(); })) {
                break;
            }
            for (DocM& d : x->v.phys) {
                d.del = false;
            }
            for (size_t n = was.size(), k = (size_t)op.b; n > 0 && !other.empty(); --n) {
                size_t d = other[k % other.size()];
                other.erase(std::find(other.begin(), other.end(), d));
                if (modify(x, "deleteDocument", [&] { x->r->deleteDocument((int)d); })) {
                    x->v.phys[d].del = true;
                }
            }
            sim::stat("deletions_swapped");
            if (op.c % 2 && flushOrClose(x, false, faults && op.b % 2 == 0)) {
                check(x, 0, "after its flush");
            }
            break;
        }
        case R_NORM: {
            if (x->v.phys.empty()) {
                break;
            }
            size_t d = (size_t)op.b % x->v.phys.size();
            int f = (int)(op.c % 3);
            uint64_t u = x->v.phys[d].uid;
            if (!hasNormField(u, f)) {
                break;
            }
            uint8_t val = (uint8_t)(op.c / 3 % 255 + 1);
            if (modify(x, "setNorm", [&] { x->r->setNorm((int)d, normField(f), val); })) {
                x->v.norms[std::make_pair(u, f)] = val;
                sim::stat("norms_set");
            }
            break;
        }
        case R_FLUSH:
            if (flushOrClose(x, false, faults && op.b % 2 == 0)) {
                check(x, 0, "after its flush");
            }
            break;
        case R_CLOSE:
            if (!x->closed || x->refs == 0) {
                dropRef(x, true, faults && op.b % 2 == 0);
            }
            break;
        case R_INCREF:
            noThrow("incRef", [&] { x->r->incRef(); });
            ++x->refs;
            break;
        case R_DECREF:
            if (x->refs > 1 || x->closed) {
                dropRef(x, false, false);
            }
            break;
        case R_REOPEN: {
            bool ro = op.b % 3 == 0 ? !x->ro : x->ro;
            IndexReaderPtr n;
            noThrow("reopening " + who(x), [&] { n = op.b % 3 == 0 || op.c % 2 ? x->r->reopen(ro) : x->r->reopen(); });
            bool cl = (x->pending && ro) || (!x->pending && x->ver == curVer && ro != x->ro);
            bool same = (x->pending && !ro) || (!x->pending && x->ver == curVer && ro == x->ro);
            if (same != (n == x->r)) {
                sim::violation("wrong-reopen", "reopening " + who(x) + (same ? " gave a new reader although nothing changed" : " gave the same reader although the index changed"));
            }
            if (cl) {
                cloneOf(x, n, ro);
            } else if (!same) {
                adopt(n, ro, com, curVer);
            }
            if (!same) {
                check(rs.back(), op.c % 7 == 0 ? V_ALL : V_NORMS, "just reopened from #" + std::to_string(x->name));
                sim::stat("reopens");
                if (op.c % 3 && x->refs == 1 && !x->closed) {
                    dropRef(x, true, false); // the usual way
                }
            } else {
                sim::stat("reopens_of_current_reader");
            }
            break;
        }
        case R_CLONE: {
            if (rs.size() >= (size_t)p.get("slots", 5)) {
                break;
            }
            bool ro = op.b % 3 == 0 ? !x->ro : x->ro;
            IndexReaderPtr n;
            noThrow("cloning " + who(x), [&] { n = boost::dynamic_pointer_cast<IndexReader>(op.b % 3 == 0 || op.c % 2 ? x->r->clone(ro) : x->r->clone()); });
            cloneOf(x, n, ro);
            check(rs.back(), op.c % 7 == 0 ? V_ALL : V_NORMS, "just cloned from #" + std::to_string(x->name));
            sim::stat("clones");
            break;
        }
        case R_CHECK:
            if (!x->failed && !x->pending && !x->stale) {
                bool cur = false;
                noThrow("isCurrent", [&] { cur = x->r->isCurrent(); });
                if (cur != (x->ver == curVer)) {
                    sim::violation("version", who(x) + " says isCurrent() = " + std::to_string(cur));
                }
            }
            check(x, V_ALL, "later");
            return;
        case R_SLEEP:
            sim::sleepNs((op.b % 2000) * 1000000LL);
            return;
        }
        checkAll("after an operation on " + who(x));
    }
    void crashes(int n) {
        if (!disk) {
            return;
        }
        std::vector<uint64_t> hot = sim::interestingSeqs(disk);
        uint64_t end = seq(), from = log[0].end;
        for (int i = 0; i < n; ++i) {
            uint64_t s = hrng.below(3) && !hot.empty() ? hot[hrng.below(hot.size())] : from + hrng.below(end - from + 1);
            if (s < from) {
                continue;
            }
            sim::CrashMode m;
            m.data = (int)hrng.below(4);
            m.data = m.data > 2 ? 2 : m.data;
            sim::Disk* img = sim::crashImage(disk, s, m, hrng);
            std::string mn = "c" + std::to_string(mount_n++);
            sim::mount(mn, img, 100 + mount_n);
            std::string c = "after a crash at disk operation " + std::to_string(s) + " of " + std::to_string(end) + " (data mode " + std::to_string(m.data) + ")";
            noThrow(c, [&] {
                IndexReaderPtr r = IndexReader::open(openDir(mn, false), true);
                Snapshot sn = readState(r);
                std::vector<const CommitW*> cand;
                for (const CommitW& w : log) {
                    if (w.end <= s) {
                        cand.clear();
                    }
                    if (w.begin <= s) {
                        cand.push_back(&w);
                    }
                }
                const CommitW* hit = nullptr;
                for (const CommitW* w : cand) {
                    if (w->v.live() == sn.uids) {
                        hit = w;
                        if (cand.size() == 1) {
                            setNormOverrides(&w->v.norms);
                        }
                    }
                }
                if (!hit) {
                    expectSeq(sn.uids, cand.empty() ? std::vector<uint64_t>() : cand[0]->v.live(), "crash-durability", c);
                }
                verifyReader(r, sn, cand.size() == 1 ? V_ALL : V_ALL & ~V_NORMS, hrng, c.c_str());
                setNormOverrides(nullptr);
                r->close();
            });
            sim::unmount(mn);
            sim::freeDisk(img);
            sim::stat("crash_images");
        }
    }
    void handles(const char* c) {
        if (disk && (sim::openFds(proc) || sim::openMaps(proc))) {
            sim::violation("leaked-handles", std::string(c) + ": all readers are closed but files are still open: " + sim::describeOpenFds(proc) + ", " + std::to_string(sim::openMaps(proc)) + " mappings");
        }
    }
    void prepare() {
        faults = p.get("faults") != 0;
        noThrow("creating the index", [&] {
            dir = openDir(mnt, true);
            w = openWriter(dir, true);
            std::vector<uint64_t> live;
            uint64_t b = seq();
            for (int i = 0; i < p.get("docs", 6); ++i) {
                uint64_t u = makeUid(0, nextId++, 0);
                w->addDocument(makeDoc(u));
                live.push_back(u);
            }
            w->close();
            w.reset();
            relearn(live, "the new index", b);
        });
    }
    void single() {
        prepare();
        for (const Op& op : p.ops) {
            step(op);
        }
        while (!rs.empty()) {
            RdPtr x = rs[hrng.below(rs.size())];
            dropRef(x, !x->closed, false);
            if (hrng.below(2)) {
                checkAll("after closing " + who(x));
            }
        }
        handles("at the end");
        Op last;
        last.kind = R_WRITE;
        last.a = 7;
        last.c = 1;
        session(last);
        step(Op{0, R_OPEN, 0, 1, 0});
        check(rs.back(), V_ALL, "at the end");
        dropRef(rs.back(), true, false);
        crashes((int)p.get("crashes"));
    }

    // ------------------------------------------------------------ several threads
    struct Sh {
        IndexReaderPtr r;
        size_t at = 0; // which commit it shows
        int users = 0;
        bool closing = false;
        uint64_t dump = 0;
    };
    typedef std::shared_ptr<Sh> ShPtr;
    std::vector<ShPtr> pool;
    std::vector<std::vector<uint64_t>> commitsSeen; // contents, in order
    std::vector<NormOverrides> normsSeen;
    size_t commitDone = 0, commitBegun = 0;
    // a shared writable reader
    IndexReaderPtr shared;
    std::map<uint64_t, int> sdoc;                   // where each document is
    std::vector<std::set<uint64_t>> delInv, delDone;
    int flushing = 0;

    ShPtr take(int64_t a) {
        sim::NoPreempt np;
        std::vector<ShPtr> c;
        for (const ShPtr& s : pool) {
            if (!s->closing) {
                c.push_back(s);
            }
        }
        if (c.empty()) {
            return ShPtr();
        }
        ShPtr s = c[(size_t)a % c.size()];
        ++s->users;
        return s;
    }
    void give(const ShPtr& s) {
        bool last;
        {
            sim::NoPreempt np;
            last = --s->users == 0 && s->closing;
            if (last) {
                pool.erase(std::find(pool.begin(), pool.end(), s));
            }
        }
        if (last) {
            noThrow("closing a shared reader", [&] { s->r->close(); });
            sim::stat("readers_closed");
        }
    }
    size_t identify(const IndexReaderPtr& r, size_t lo, size_t hi, const char* c) {
        std::vector<uint64_t> u;
        noThrow(c, [&] { u = readState(r).uids; });
        for (size_t k = lo; k <= hi && k < commitsSeen.size(); ++k) {
            if (commitsSeen[k] == u) {
                return k;
            }
        }
        expectSeq(u, commitsSeen[lo], "wrong-view", std::string(c) + " shows none of the commits " + std::to_string(lo) + " to " + std::to_string(hi));
        return lo;
    }
    void share(const IndexReaderPtr& r, size_t at) {
        sim::NoPreempt np;
        ShPtr s(new Sh());
        s->r = r;
        s->at = at;
        pool.push_back(s);
        if (pool.size() > 8) {
            for (const ShPtr& x : pool) {
                if (!x->closing && x->users) {
                    x->closing = true; // its last user closes it
                    break;
                }
            }
        }
    }
    void full(const IndexReaderPtr& r, size_t at, const char* c, sim::Rng& g, int bits) {
        noThrow(c, [&] {
            Snapshot s = readState(r);
            expectSeq(s.uids, commitsSeen[at], "wrong-view", c);
            verifyReader(r, s, bits, g, c);
        });
    }
    void change(const Op& op, sim::Rng& g) {
        std::vector<uint64_t> live = commitsSeen.back();
        bool byReader = op.b % 3 == 0 && !live.empty();
        IndexWriterPtr x;
        IndexReaderPtr r;
        noThrow("changing the index", [&] {
            if (byReader) {
                r = IndexReader::open(dir, false);
                uint64_t n = 1 + g.below(2);
                if (r->hasDeletions() && g.below(2)) {
                    // undone, and others deleted instead
                    n = std::max<uint64_t>(1, (uint64_t)r->numDeletedDocs() - g.below(2));
                    std::set<uint64_t> shown(live.begin(), live.end());
                    r->undeleteAll();
                    live = readState(r).uids;
                    std::vector<uint64_t> others;
                    for (uint64_t u : live) {
                        if (shown.count(u)) {
                            others.push_back(u);
                        }
                    }
                    for (; n > 0 && !others.empty(); --n) {
                        size_t k = g.below(others.size());
                        r->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)others[k])));
                        live.erase(std::find(live.begin(), live.end(), others[k]));
                        others.erase(others.begin() + (std::ptrdiff_t)k);
                    }
                    n = 0;
                    sim::stat("deletions_swapped");
                }
                for (; n > 0 && !live.empty(); --n) {
                    size_t k = g.below(live.size());
                    if (r->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)live[k]))) != 1) {
                        sim::violation("wrong-view", "a document is missing from a new reader");
                    }
                    live.erase(live.begin() + (std::ptrdiff_t)k);
                }
            } else {
                x = openWriter(dir, false);
                for (uint64_t n = 1 + g.below(5); n > 0; --n) {
                    if (g.below(4) == 0 && !live.empty()) {
                        size_t k = g.below(live.size());
                        x->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)live[k])));
                        live.erase(live.begin() + (std::ptrdiff_t)k);
                    } else {
                        uint64_t u = makeUid(0, nextId++, 0);
                        x->addDocument(makeDoc(u));
                        live.push_back(u);
                    }
                }
                if (g.below(6) == 0) {
                    x->optimize();
                }
            }
            {
                sim::NoPreempt np;
                commitsSeen.push_back(live);
                commitBegun = commitsSeen.size() - 1;
            }
            if (byReader) {
                r->close();
            } else {
                x->close();
            }
            commitDone = commitBegun;
        });
        sim::stat("index_changes");
    }
    void sharedStep(int t, const Op& op, sim::Rng& g) {
        sim::event(readerOpName(op.kind), t, op.a);
        sim::progress();
        if (op.kind == M_COMMIT) {
            if (t == 0) {
                change(op, g);
            }
            return;
        }
        if (op.kind == M_OPEN) {
            size_t lo = commitDone;
            IndexReaderPtr r;
            noThrow("opening a reader", [&] { r = IndexReader::open(dir, true); });
            share(r, identify(r, lo, commitBegun, "a new reader"));
            return;
        }
        ShPtr s = take(op.a);
        if (!s) {
            return;
        }
        switch (op.kind) {
        case M_REOPEN: {
            size_t lo = commitDone;
            IndexReaderPtr n;
            noThrow("reopening a shared reader", [&] { n = s->r->reopen(); });
            size_t hi = commitBegun;
            if (n == s->r) {
                bool fits = s->at >= lo;
                for (size_t k = lo; k <= hi; ++k) {
                    fits = fits || commitsSeen[k] == commitsSeen[s->at]; // later commits can look the same
                }
                if (!fits) {
                    sim::violation("wrong-reopen", "reopen() gave the same reader although the index had changed");
                }
            } else {
                size_t at = identify(n, lo, hi, "a reopened reader");
                if (g.below(4) == 0) {
                    full(n, at, "a reopened reader", g, V_ALL);
                }
                share(n, at);
                if (op.c % 2) {
                    s->closing = true;
                }
                sim::stat("reopens");
            }
            break;
        }
        case M_CLONE: {
            IndexReaderPtr n;
            noThrow("cloning a shared reader", [&] { n = boost::dynamic_pointer_cast<IndexReader>(s->r->clone()); });
            full(n, s->at, "a clone", g, V_NORMS);
            share(n, s->at);
            sim::stat("clones");
            break;
        }
        case M_READ:
            full(s->r, s->at, "a shared reader", g, op.b % 3 == 0 ? V_ALL : op.b % 3 == 1 ? V_STORED | V_NORMS | V_VECTORS : V_TERMS);
            sim::stat("reads");
            break;
        case M_CLOSE:
            s->closing = true;
            break;
        }
        give(s);
    }
    void throughStep(int t, const Op& op, sim::Rng& g) {
        sim::event(readerOpName(op.kind), t, op.a);
        sim::progress();
        switch (op.kind) {
        case S_DEL: {
            std::vector<uint64_t> mine;
            for (const DocM& d : com.phys) {
                if ((int)(uidId(d.uid) % (uint64_t)nth) == t && !delInv[(size_t)t].count(d.uid)) {
                    mine.push_back(d.uid);
                }
            }
            if (mine.empty()) {
                break;
            }
            uint64_t u = mine[(size_t)op.a % mine.size()];
            delInv[(size_t)t].insert(u);
            noThrow("deleting through a shared reader", [&] {
                if (op.b & 1) {
                    shared->deleteDocument(sdoc[u]);
                } else if (shared->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)u))) != 1) {
                    sim::violation("wrong-view", "a shared reader lacks a document that nobody deleted");
                }
            });
            delDone[(size_t)t].insert(u);
            sim::stat("reader_deletes");
            break;
        }
        case S_NORM:
            if (!com.phys.empty()) {
                size_t k = (size_t)op.a % com.phys.size();
                uint64_t u = com.phys[k].uid;
                int f = (int)(op.b % 3);
                if ((int)(uidId(u) % (uint64_t)nth) == t && hasNormField(u, f)) {
                    uint8_t val = (uint8_t)(op.c % 255 + 1);
                    noThrow("setting a norm through a shared reader", [&] { shared->setNorm(sdoc[u], normField(f), val); });
                    com.norms[std::make_pair(u, f)] = val;
                    ByteArray b;
                    noThrow("reading norms of a shared reader", [&] { b = shared->norms(normField(f)); });
                    if (b[sdoc[u]] != val) {
                        sim::violation("wrong-view", "a norm just set through a shared reader reads " + std::to_string(b[sdoc[u]]) + " not " + std::to_string(val));
                    }
                    sim::stat("norms_set");
                }
            }
            break;
        case S_FLUSH: {
            std::set<uint64_t> must;
            for (const std::set<uint64_t>& d : delDone) {
                must.insert(d.begin(), d.end());
            }
            noThrow("flushing a shared reader", [&] { shared->flush(); });
            noThrow("a reader opened after the flush", [&] {
                IndexReaderPtr r = IndexReader::open(dir, true);
                std::set<uint64_t> may;
                Snapshot s = readState(r);
                for (const std::set<uint64_t>& d : delInv) {
                    may.insert(d.begin(), d.end());
                }
                std::set<uint64_t> seen(s.uids.begin(), s.uids.end());
                for (const DocM& d : com.phys) {
                    if (must.count(d.uid) && seen.count(d.uid)) {
                        sim::violation("lost-delete", "document " + uidStr(d.uid) + " was deleted before the flush but is still there");
                    }
                    if (!may.count(d.uid) && !seen.count(d.uid)) {
                        sim::violation("wrong-view", "document " + uidStr(d.uid) + " is gone but nobody deleted it");
                    }
                }
                r->close();
            });
            sim::stat("reader_commits");
            break;
        }
        case S_READ:
            noThrow("reading through a shared reader", [&] {
                for (uint64_t u : delDone[(size_t)t]) {
                    if (!shared->isDeleted(sdoc[u])) {
                        sim::violation("lost-delete", "document " + uidStr(u) + " was deleted through the shared reader but is not");
                    }
                }
                std::vector<uint64_t> u;
                for (const DocM& d : com.phys) {
                    if ((int)(uidId(d.uid) % (uint64_t)nth) == t && !delInv[(size_t)t].count(d.uid)) {
                        u.push_back(d.uid);
                    }
                }
                if (!u.empty()) {
                    uint64_t x = u[g.below(u.size())];
                    TermDocsPtr td = shared->termDocs(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)x)));
                    if (!td->next() || td->doc() != sdoc[x] || td->next()) {
                        sim::violation("wrong-view", "the postings of an undeleted document are wrong in a shared reader");
                    }
                    if (shared->document(sdoc[x])->get(L"uid") != L"u" + StringUtils::toString((int64_t)x)) {
                        sim::violation("wrong-view", "a stored field is wrong in a shared reader");
                    }
                }
                if (op.b % 4 == 0) {
                    IndexReaderPtr c = boost::dynamic_pointer_cast<IndexReader>(shared->clone(true));
                    std::set<uint64_t> gone;
                    Snapshot s = readState(c);
                    std::set<uint64_t> seen(s.uids.begin(), s.uids.end());
                    for (uint64_t y : delDone[(size_t)t]) {
                        if (seen.count(y)) {
                            sim::violation("lost-delete", "a clone of a shared reader shows a document deleted before");
                        }
                    }
                    uint64_t h = dumpReader(c);
                    sim::yield();
                    if (h != dumpReader(c)) {
                        sim::violation("wrong-view", "a clone of a shared reader changes");
                    }
                    c->close();
                    sim::stat("clones");
                }
            });
            break;
        }
    }
    void threads(bool through) {
        prepare();
        commitsSeen.push_back(com.live());
        delInv.resize((size_t)nth);
        delDone.resize((size_t)nth);
        if (through) {
            noThrow("opening a reader", [&] { shared = IndexReader::open(dir, false); });
            for (size_t i = 0; i < com.phys.size(); ++i) {
                sdoc[com.phys[i].uid] = (int)i;
            }
        }
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t, through] {
                sim::Rng g(p.seed * 77 + (uint64_t)t);
                for (const Op& op : p.ops) {
                    if (op.th == t) {
                        if (through) {
                            throughStep(t, op, g);
                        } else {
                            sharedStep(t, op, g);
                        }
                    }
                }
            }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        if (through) {
            for (DocM& d : com.phys) {
                d.del = delDone[uidId(d.uid) % (uint64_t)nth].count(d.uid) != 0;
            }
            noThrow("closing the shared reader", [&] { shared->close(); });
            RdPtr x;
            noThrow("opening a reader", [&] { x = adopt(IndexReader::open(dir, true), true, com, 0); });
            check(x, V_ALL, "after all threads ended");
            noThrow("closing a reader", [&] { x->r->close(); });
        } else {
            sim::Rng g(p.seed);
            for (const ShPtr& s : pool) {
                full(s->r, s->at, "a shared reader at the end", g, V_ALL);
                noThrow("closing a shared reader", [&] { s->r->close(); });
            }
            pool.clear();
        }
        handles("at the end");
    }
};

void genCommon(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    static const int locks[] = {0, 0, 1, 2, 4};
    p.set("lock", locks[r.below(5)]);
    p.set("delpol", 0);
    p.set("docs", 1 + (int64_t)r.below(12));
    p.set("session", 1 + (int64_t)r.below(10));
    p.set("slots", 2 + (int64_t)r.below(5));
    p.set("rich", (int64_t)r.below(2));
}
void gen13(Plan& p, sim::Rng& r, int tier) {
    genCommon(p, r, tier);
    OpMix m;
    if (r.below(4) == 0) {
        p.set("mode", 2);
        genSched(p, r, true);
        m.add(S_DEL, 10).add(S_NORM, 6).add(S_FLUSH, 4).add(S_READ, 8);
        p.set("docs", 4 + (int64_t)r.below(30));
        genOps(p, r, m, 2 + (int)r.below(3), 3 + (int)r.below(15), 2);
        return;
    }
    p.set("mode", 0);
    genSched(p, r, false);
    if (p.get("dir") && r.below(3) == 0) {
        p.set("faults", 1);
        double x = r.below(2) ? 0.2 : 0.04;
        switch (r.below(4)) {
        case 0: p.setRate(sim::OC_WRITE, r.below(2) ? sim::F_EIO : sim::F_ENOSPC, x); break;
        case 1: p.setRate(sim::OC_WRITE, sim::F_SHORT_ENOSPC, x); break;
        case 2: p.setRate(sim::OC_FSYNC, sim::F_FSYNC_EIO, x); break;
        case 3: p.setRate(sim::OC_OPENW, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x); break;
        }
        p.set("f.max", 20);
    }
    p.set("crashes", p.get("dir") ? (int64_t)r.below(6) : 0);
    m.add(R_OPEN, 10).add(R_DEL, 14).add(R_DELTERM, 8).add(R_UNDEL, 5).add(R_NORM, 10).add(R_FLUSH, 10).add(R_CLOSE, 8).add(R_REOPEN, 5).add(R_CLONE, 5).add(R_CHECK, 3).add(R_WRITE, 5).add(R_SLEEP, 1).add(R_SWAP, 4);
    genOps(p, r, m, 1, 10 + (int)r.below(tier ? 120 : 60), 2);
}
void gen14(Plan& p, sim::Rng& r, int tier) {
    genCommon(p, r, tier);
    OpMix m;
    if (r.below(2)) {
        p.set("mode", 1);
        genSched(p, r, true);
        m.add(M_COMMIT, 8).add(M_OPEN, 3).add(M_REOPEN, 12).add(M_CLONE, 5).add(M_READ, 10).add(M_CLOSE, 5);
        genOps(p, r, m, 2 + (int)r.below(3), 4 + (int)r.below(20), 2);
        return;
    }
    p.set("mode", 0);
    genSched(p, r, false);
    m.add(R_OPEN, 6).add(R_DEL, 6).add(R_DELTERM, 3).add(R_UNDEL, 2).add(R_NORM, 5).add(R_FLUSH, 4).add(R_CLOSE, 8).add(R_REOPEN, 16).add(R_CLONE, 12).add(R_INCREF, 3).add(R_DECREF, 4).add(R_CHECK, 3).add(R_WRITE, 10).add(R_SWAP, 4);
    genOps(p, r, m, 1, 10 + (int)r.below(tier ? 120 : 60), 2);
}
void run(const Plan& p) {
    ReaderWorld w(p);
    setRichDocs((int)p.get("rich", 1));
    switch (p.get("mode")) {
    case 1: w.threads(false); break;
    case 2: w.threads(true); break;
    default: w.single();
    }
}
RegisterProp reg13("C13", gen13, run, readerOpName);
RegisterProp reg14("C14", gen14, run, readerOpName);
}
