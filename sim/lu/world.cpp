#include "world.h"
#include "ConcurrentMergeScheduler.h"
#include "SerialMergeScheduler.h"
#include "NativeFSLockFactory.h"
#include "SimpleFSLockFactory.h"
#include "SingleInstanceLockFactory.h"
#include "NoLockFactory.h"
#include "StringUtils.h"
#include <algorithm>

using namespace Lucene;

namespace lu {

const char* opName(int k) {
    static const char* n[] = {"none", "add", "update", "delete-id", "delete-group-query", "delete-num-query", "delete-terms", "commit", "prepareCommit", "commit-prepared", "rollback", "optimize", "expungeDeletes", "maybeMerge", "waitForMerges", "getReader", "reopen-nrt", "open-reader", "hold-reader", "recheck-held", "release-held", "close-reopen", "addIndexes-dirs", "addIndexes-readers", "deleteAll", "setting", "throwing-doc", "sleep", "crash-check", "counts", "faults"};
    return k >= 0 && k < O_NKINDS ? n[k] : "?";
}

// only with -v; costs extra steps inside the library, so the schedule of a replay may differ
class LogInfo : public InfoStream {
public:
    LUCENE_CLASS(LogInfo);
    virtual InfoStream& operator<< (const String& t) {
        std::string s = narrow(t);
        while (!s.empty() && s.back() == '\n') {
            s.pop_back();
        }
        sim::logf("   t%d %s", sim::self(), s.c_str());
        return *this;
    }
};
class KeepAllPolicy : public IndexDeletionPolicy {
public:
    LUCENE_CLASS(KeepAllPolicy);
    virtual void onInit(Collection<IndexCommitPtr> commits) {}
    virtual void onCommit(Collection<IndexCommitPtr> commits) {}
};
class KeepNPolicy : public IndexDeletionPolicy {
public:
    LUCENE_CLASS(KeepNPolicy);
    int n = 2;
    virtual void onInit(Collection<IndexCommitPtr> commits) {
        onCommit(commits);
    }
    virtual void onCommit(Collection<IndexCommitPtr> commits) {
        for (int i = 0; i + n < commits.size(); ++i) {
            commits[i]->deleteCommit();
        }
    }
};

std::string pathOf(const std::string& m) {
    return "/sim/" + m + "/idx";
}

MapStringString tagMap(int tag) {
    MapStringString m = MapStringString::newInstance();
    m.put(L"tag", wide(std::to_string(tag)));
    return m;
}

std::vector<std::string> indexFiles(sim::Disk* d) {
    std::vector<std::string> v = sim::listFiles(d, "idx");
    std::sort(v.begin(), v.end());
    return v;
}

World::World(const Plan& plan, const std::string& mountName, int proc_) : p(plan), mnt(mountName), proc(proc_), hrng(sim::mix(plan.seed, 991)) {
    nth = (int)p.get("threads", 1);
    ram = p.get("dir", 1) == 0;
    exact = nth == 1;
    stop = false;
    nextTag = 1;
    mount_n = 0;
    prepared = false;
    failedOnce = false;
    noDelNow = false;
    verifyBits = (int)p.get("v.bits", V_ALL) | (p.get("v.calm") ? V_CALM : 0);
    setCalmDumps(p.get("v.calm") != 0);
    salt = 0;
    setRichDocs((int)p.get("rich", 1));
    disk = ram ? nullptr : sim::newDisk();
    if (disk) {
        sim::mount(mnt, disk, proc);
    }
    base.resize((size_t)nth);
    hist.resize((size_t)nth);
    states.resize((size_t)nth);
    ver.resize((size_t)nth);
    analyzer = newLucene<WhitespaceAnalyzer>();
}

World::~World() {}

DirectoryPtr World::openDir(const std::string& m, bool forWriter) {
    if (ram) {
        return newLucene<RAMDirectory>();
    }
    String path = wide(pathOf(m));
    LockFactoryPtr lf;
    switch (p.get("lock", 0)) {
    case 1: lf = newLucene<SimpleFSLockFactory>(); break;
    case 2: lf = newLucene<SingleInstanceLockFactory>(); break;
    case 3: lf = NoLockFactory::getNoLockFactory(); break;
    case 4: lf = newLucene<NativeFSLockFactory>(path); break;
    default: break;
    }
    if (p.get("dir", 1) == 2) {
        return newLucene<MMapDirectory>(path, lf);
    }
    return newLucene<SimpleFSDirectory>(path, lf);
}

void World::configure(const IndexWriterPtr& x) {
    LogMergePolicyPtr mp;
    if (p.get("mp")) {
        LogByteSizeMergePolicyPtr b = newLucene<LogByteSizeMergePolicy>(x);
        if (p.get("minmerge")) {
            b->setMinMergeMB((double)p.get("minmerge") / 1000.0);
        }
        mp = b;
    } else {
        LogDocMergePolicyPtr d = newLucene<LogDocMergePolicy>(x);
        if (p.get("minmerge")) {
            d->setMinMergeDocs((int)p.get("minmerge"));
        }
        mp = d;
    }
    mp->setMergeFactor((int)std::max<int64_t>(2, p.get("mf", 3)));
    mp->setUseCompoundFile(p.get("cfs", 1));
    mp->setUseCompoundDocStore(p.get("cfsdoc", p.get("cfs", 1)));
    if (p.get("cfsratio", -1) >= 0) {
        mp->setNoCFSRatio((double)p.get("cfsratio") / 100.0);
    }
    if (p.get("maxmerge")) {
        mp->setMaxMergeDocs((int)p.get("maxmerge"));
    }
    mp->setCalibrateSizeByDeletes(p.get("calib", 0));
    x->setMergePolicy(mp);
    if (p.get("ms") == 0) {
        ConcurrentMergeSchedulerPtr c = newLucene<ConcurrentMergeScheduler>();
        c->setMaxThreadCount((int)std::max<int64_t>(1, p.get("msn", 1)));
        x->setMergeScheduler(c);
    } else {
        x->setMergeScheduler(newLucene<SerialMergeScheduler>());
    }
    if (p.get("ramkb")) {
        x->setRAMBufferSizeMB((double)p.get("ramkb") / 1024.0);
        x->setMaxBufferedDocs(IndexWriter::DISABLE_AUTO_FLUSH);
    } else {
        x->setMaxBufferedDocs((int)std::max<int64_t>(2, p.get("mbd", 4)));
    }
    if (p.get("mbdel")) {
        x->setMaxBufferedDeleteTerms((int)p.get("mbdel"));
    }
    if (p.get("tii")) {
        x->setTermIndexInterval((int)p.get("tii"));
    }
}

IndexWriterPtr World::openWriter(const DirectoryPtr& d, bool create) {
    if (!policy) {
        switch (p.get("delpol")) {
        case 1: policy = newLucene<KeepAllPolicy>(); break;
        case 2: policy = newLucene<KeepNPolicy>(); break;
        default: policy = newLucene<KeepOnlyLastCommitDeletionPolicy>(); break;
        }
    }
    IndexWriterPtr x = newLucene<IndexWriter>(d, analyzer, create, policy, IndexWriter::MaxFieldLengthUNLIMITED);
    configure(x);
    if (sim::g_verbose && getenv("SIM_INFO")) {
        x->setInfoStream(newLucene<LogInfo>());
    }
    return x;
}

// ---------------------------------------------------------------- history
Stamp World::stamp() {
    Stamp s;
    s.ev = sim::eventSeq();
    s.log = disk ? sim::diskSeq(disk) : 0;
    return s;
}

static void applyOp(std::vector<uint64_t>& st, const HOp& h) {
    if (h.reset) {
        st = h.to;
        return;
    }
    if (h.delAll) {
        st.clear();
    }
    if (!h.delKeys.empty() || h.delGrp >= 0 || h.numHi >= h.numLo) {
        std::vector<uint64_t> o;
        for (uint64_t u : st) {
            if (h.delKeys.count(uidKey(u)) || (h.delGrp >= 0 && groupOf(u) == h.delGrp) || (numOf(u) >= h.numLo && numOf(u) <= h.numHi)) {
                continue;
            }
            o.push_back(u);
        }
        st.swap(o);
    }
    st.insert(st.end(), h.adds.begin(), h.adds.end());
}

const std::vector<uint64_t>& World::stateAt(int t, int k) {
    std::deque<std::vector<uint64_t>>& s = states[(size_t)t];
    if (s.empty()) {
        s.push_back(base[(size_t)t]);
    }
    while ((int)s.size() <= k) {
        std::vector<uint64_t> n = s.back();
        applyOp(n, hist[(size_t)t][s.size() - 1]);
        s.push_back(n);
    }
    return s[(size_t)k];
}

std::vector<uint64_t> World::finalState(int t) {
    return stateAt(t, (int)hist[(size_t)t].size());
}

size_t World::beginOp(int t, const HOp& h) {
    hist[(size_t)t].push_back(h);
    hist[(size_t)t].back().inv = stamp();
    return hist[(size_t)t].size() - 1;
}

void World::endOp(int t, size_t i, bool failed) {
    HOp& h = hist[(size_t)t][i];
    h.done = stamp();
    h.isDone = true;
    h.failed = failed;
}

int World::opsDone(int t) const {
    int n = (int)hist[(size_t)t].size();
    while (n > 0 && !hist[(size_t)t][(size_t)n - 1].isDone) {
        --n;
    }
    return n;
}
int World::opsInvoked(int t) const {
    return (int)hist[(size_t)t].size();
}
std::vector<int> World::doneNow() {
    std::vector<int> v;
    for (int t = 0; t < nth; ++t) {
        v.push_back(opsDone(t));
    }
    return v;
}
std::vector<int> World::invokedNow() {
    std::vector<int> v;
    for (int t = 0; t < nth; ++t) {
        v.push_back(opsInvoked(t));
    }
    return v;
}

size_t World::beginCommit(int tag) {
    CommitRec c;
    c.tag = tag;
    c.inv = stamp();
    c.lo = doneNow();
    commits.push_back(c);
    return commits.size() - 1;
}

// A commit without user data keeps that of the last commit. A commit without changes writes nothing, so
// the last one written may be older than the last acknowledged one.
void World::inheritTags(size_t i) {
    commits[i].tag = -1;
    const CommitRec* next = nullptr;
    for (size_t k = i; k-- > 0;) {
        const CommitRec& c = commits[k];
        if (!c.acked) {
            continue;
        }
        if (next) {
            for (int t = 0; t < nth; ++t) {
                if (stateAt(t, c.lo[(size_t)t]) != stateAt(t, next->hi[(size_t)t])) {
                    return;
                }
            }
        }
        commits[i].also.insert(c.tag);
        commits[i].also.insert(c.also.begin(), c.also.end());
        next = &c;
    }
}

void World::endCommit(size_t i, bool ok) {
    CommitRec& c = commits[i];
    c.done = stamp();
    c.hi = invokedNow();
    c.acked = ok;
    c.failed = !ok;
}

uint64_t World::newUid(int t, uint64_t id) {
    return makeUid(t, id, ++ver[(size_t)t]);
}

std::string World::ctx(const char* what) {
    return std::string(what) + " (thread " + std::to_string(sim::self()) + ", step " + std::to_string(sim::stepCount()) + ")";
}

// ---------------------------------------------------------------- checks
World::ByThread World::split(const std::vector<uint64_t>& uids, const char* ctx) {
    ByThread v((size_t)nth);
    for (uint64_t u : uids) {
        int t = uidThread(u);
        if (t >= nth || (u & 0xFFFFF) == 0 || (u & 0xFFFFF) > ver[(size_t)t]) {
            sim::violation("unknown-document", std::string(ctx) + ": document " + uidStr(u) + " was never added");
        }
        v[(size_t)t].push_back(u);
    }
    return v;
}

// v is all of `full`, except that some after the first n may be missing
static bool partOf(const std::vector<uint64_t>& v, const std::vector<uint64_t>& full, size_t n) {
    size_t at = 0;
    for (size_t i = 0; i < full.size(); ++i) {
        if (at < v.size() && v[at] == full[i]) {
            ++at;
        } else if (i < n) {
            return false;
        }
    }
    return at == v.size();
}

bool World::inWindow(const std::vector<uint64_t>& uids, const std::vector<int>& lo, const std::vector<int>& hi, std::string* why, bool parts) {
    ByThread v = split(uids, "visible documents");
    std::vector<int> pmin((size_t)nth), pmax((size_t)nth);
    for (int t = 0; t < nth; ++t) {
        int a = -1, b = -1;
        for (int k = lo[(size_t)t]; k <= hi[(size_t)t]; ++k) {
            bool same = stateAt(t, k) == v[(size_t)t];
            if (!same && parts && k > lo[(size_t)t] && hist[(size_t)t][(size_t)k - 1].bulk) {
                const HOp& h = hist[(size_t)t][(size_t)k - 1];
                same = partOf(v[(size_t)t], h.full.empty() ? stateAt(t, k) : h.full, stateAt(t, k - 1).size());
            }
            if (same) {
                if (a < 0) {
                    a = k;
                }
                b = k;
            }
        }
        if (a < 0) {
            if (why) {
                *why = "documents of thread " + std::to_string(t) + " are " + seqStr(v[(size_t)t]) + ", which is not its state after any of its operations " + std::to_string(lo[(size_t)t]) + ".." + std::to_string(hi[(size_t)t]) + ";";
                for (int k = -1; k <= (int)hist[(size_t)t].size(); ++k) {
                    if (k >= 0 && stateAt(t, k) == v[(size_t)t]) {
                        *why += " it is the state after " + std::to_string(k) + ";";
                        break;
                    }
                }
                for (int k : {lo[(size_t)t], hi[(size_t)t]}) {
                    *why += " after " + std::to_string(k) + ": " + seqStr(stateAt(t, k), 30);
                }
                *why += " operations:";
                for (int k = std::max(0, lo[(size_t)t] - 6); k < hi[(size_t)t] && k < lo[(size_t)t] + 12; ++k) {
                    const HOp& h = hist[(size_t)t][(size_t)k];
                    *why += " " + std::to_string(k) + "=" + opName(h.kind) + (h.failed ? "(failed)" : "");
                    for (uint64_t u : h.delKeys) {
                        *why += " -t" + std::to_string(u >> 20) + "i" + std::to_string(u & 0xFFFFF);
                    }
                    for (size_t z = 0; z < h.adds.size() && z < 3; ++z) {
                        *why += " +" + uidStr(h.adds[z]);
                    }
                }
            }
            return false;
        }
        pmin[(size_t)t] = a;
        pmax[(size_t)t] = b;
    }
    for (int t = 0; t < nth; ++t) {
        if (!pmin[(size_t)t]) {
            continue;
        }
        const HOp& in = hist[(size_t)t][(size_t)pmin[(size_t)t] - 1];
        for (int u = 0; u < nth; ++u) {
            if (u == t || pmax[(size_t)u] >= (int)hist[(size_t)u].size()) {
                continue;
            }
            const HOp& out = hist[(size_t)u][(size_t)pmax[(size_t)u]];
            if (out.isDone && out.done.ev < in.inv.ev) {
                if (why) {
                    *why = "an operation of thread " + std::to_string(t) + " (" + opName(in.kind) + ") is visible but not an operation of thread " + std::to_string(u) + " (" + opName(out.kind) + ") that had returned before it was called";
                }
                return false;
            }
        }
    }
    return true;
}

void World::checkWindow(const std::vector<uint64_t>& uids, const std::vector<int>& lo, const std::vector<int>& hi, const char* cls, const std::string& c, bool parts) {
    sim::NoOom no;
    std::string why;
    if (!inWindow(uids, lo, hi, &why, parts)) {
        sim::violation(cls, c + ": " + why);
    }
}

void World::checkCommitted(const std::vector<uint64_t>& uids, const std::string& tag, Stamp begin, Stamp end, bool byLog, const char* cls, const std::string& c) {
    sim::NoOom no;
    uint64_t ackT = byLog ? end.log : begin.ev, invT = byLog ? end.log : end.ev;
    std::vector<int> lo((size_t)nth, 0), hi((size_t)nth, 0);
    for (int t = 0; t < nth; ++t) {
        int n = 0;
        for (const HOp& h : hist[(size_t)t]) {
            if ((byLog ? h.inv.log : h.inv.ev) <= invT) {
                ++n;
            }
        }
        hi[(size_t)t] = n;
    }
    int lastAck = 0;
    for (const CommitRec& k : commits) {
        if (k.acked && (byLog ? k.done.log : k.done.ev) <= ackT) {
            for (int t = 0; t < nth; ++t) {
                lo[(size_t)t] = std::max(lo[(size_t)t], k.lo[(size_t)t]);
            }
            lastAck = k.tag;
        }
    }
    std::vector<int> klo((size_t)nth, 1 << 30), khi((size_t)nth, 0);
    bool any = false;
    for (const CommitRec& k : commits) {
        bool mine = (k.tag ? std::to_string(k.tag) : std::string()) == tag || k.also.count(tag.empty() ? 0 : std::stoi(tag));
        if (mine && !k.rolledBack && (byLog ? k.inv.log : k.inv.ev) <= invT) {
            any = true;
            for (int t = 0; t < nth; ++t) {
                klo[(size_t)t] = std::min(klo[(size_t)t], k.lo[(size_t)t]);
                int h = k.hi.empty() ? opsInvoked(t) : k.hi[(size_t)t];
                khi[(size_t)t] = std::max(khi[(size_t)t], std::min(h, hi[(size_t)t]));
            }
        }
    }
    std::string cc = c + " [commit tag found '" + tag + "', last acknowledged " + std::to_string(lastAck) + "]";
    if (!any) {
        sim::violation(cls, cc + ": the content belongs to no commit; documents " + seqStr(uids));
    }
    std::string why;
    if (!inWindow(uids, klo, khi, &why)) {
        sim::violation(cls, cc + ": not the content of the commit with that tag: " + why);
    }
    if (!inWindow(uids, lo, hi, &why)) {
        sim::violation(cls, cc + ": an acknowledged commit is lost: " + why);
    }
}

std::string World::tagOf(const IndexReaderPtr& r) {
    MapStringString m = r->getCommitUserData();
    if (!m || !m.contains(L"tag")) {
        return "";
    }
    return narrow(m.get(L"tag"));
}

void World::checkNrt(const IndexReaderPtr& r, const std::vector<int>& lo, const std::vector<int>& hi, const std::string& c) {
    Snapshot s = readState(r);
    if (!nrtExcused()) {
        checkWindow(s.uids, lo, hi, "nrt-visibility", c, true);
    }
    verifyReader(r, s, verifyBits, hrng, c.c_str());
}

void World::checkOpen(const Op& op, int t) {
    Stamp b = stamp();
    IndexReaderPtr r = IndexReader::open(dir, op.a & 1);
    Stamp e = stamp();
    Snapshot s = readState(r);
    checkCommitted(s.uids, tagOf(r), b, e, false, "commit-visibility", ctx("IndexReader::open"));
    verifyReader(r, s, verifyBits, hrng, "opened reader");
    r->close();
}

// readers of a writer that is gone are kept as plain snapshots
void World::retireNrt() {
    for (HeldPtr& h : held) {
        if (h->owner >= 0) {
            h->owner = -1;
            h->what = "old " + h->what;
        }
    }
}

void World::recheckHeld(HeldPtr h) {
    ++h->users;
    std::string text;
    uint64_t d = dumpReader(h->r, &text);
    if (d != h->dump) {
        Snapshot s = readState(h->r);
        expectSeq(s.uids, h->snap.uids, "snapshot-changed", "held reader " + h->what);
        sim::violation("snapshot-changed", "a held reader (" + h->what + ") shows something else than when it was opened: " + text);
    }
    if (hrng.below(3) == 0) {
        verifyReader(h->r, h->snap, verifyBits, hrng, "held reader");
    }
    --h->users;
    sim::stat("held_rechecks");
}

void World::crashCheck(uint64_t seq, sim::CrashMode mode, uint64_t seed, bool recover) {
    sim::Rng rng(seed);
    sim::Disk* img = sim::crashImage(disk, seq, mode, rng);
    std::string m = "c" + std::to_string(mount_n++);
    int pr = 100 + mount_n;
    sim::mount(m, img, pr);
    Stamp e;
    e.log = seq;
    std::string c = "after a crash at disk operation " + std::to_string(seq) + " of " + std::to_string(sim::diskSeq(disk)) + " (data mode " + std::to_string(mode.data) + ")";
    sim::stat("crash_images");
    bool first = commits.empty() || !commits[0].acked || commits[0].done.log > seq;
    noThrow(c, [&] {
        DirectoryPtr d = openDir(m, false);
        if (first && !IndexReader::indexExists(d)) {
            return; // nothing was acknowledged yet
        }
        IndexReaderPtr r;
        try {
            r = IndexReader::open(d, true);
        } catch (LuceneException&) {
            if (first) {
                return; // the very first commit is torn
            }
            throw;
        }
        Snapshot s = readState(r);
        std::string tag = tagOf(r);
        checkCommitted(s.uids, tag, e, e, true, "crash-durability", c);
        verifyReader(r, s, verifyBits, rng, c.c_str());
        r->close();
        if (recover) {
            // a writer must be able to continue from there
            if (p.get("lock") == 1 && IndexWriter::isLocked(d)) {
                IndexWriter::unlock(d); // left over from the crashed process, documented to be removed by hand
            }
            std::vector<uint64_t> before = s.uids;
            IndexWriterPtr x = newLucene<IndexWriter>(d, analyzer, false, IndexWriter::MaxFieldLengthUNLIMITED);
            configure(x);
            std::vector<uint64_t> after = before;
            int n = 1 + (int)rng.below(4);
            for (int i = 0; i < n; ++i) {
                uint64_t u = makeUid(0, 0xF0000 + (uint64_t)i, 0xF0000 + (uint64_t)i);
                x->addDocument(makeDoc(u));
                after.push_back(u);
            }
            if (!before.empty() && rng.below(2)) {
                uint64_t victim = before[rng.below(before.size())];
                x->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(victim))));
                after.erase(std::find(after.begin(), after.end(), victim));
            }
            uint64_t s0 = sim::diskSeq(img);
            if (rng.below(2)) {
                x->optimize();
            }
            x->commit(tagMap(999999));
            uint64_t s1 = sim::diskSeq(img);
            x->close();
            r = IndexReader::open(d, true);
            Snapshot s2 = readState(r);
            expectSeq(s2.uids, after, "recovery-content", c + ", then continued writing");
            verifyReader(r, s2, verifyBits, rng, "after recovery");
            std::set<std::string> live;
            HashSet<String> fs = r->getIndexCommit()->getFileNames();
            for (HashSet<String>::iterator it = fs.begin(); it != fs.end(); ++it) {
                live.insert(narrow(*it));
            }
            r->close();
            for (const std::string& f : indexFiles(img)) {
                if (!live.count(f) && f != "segments.gen" && f.find("lock") == std::string::npos) {
                    sim::violation("orphan-file", c + ": file " + f + " of the crashed process is still there after a writer was opened and closed");
                }
            }
            // crash again while the new writer commits
            uint64_t s3 = s0 + rng.below(sim::diskSeq(img) - s0 + 1);
            sim::CrashMode m2 = mode;
            sim::Disk* img2 = sim::crashImage(img, s3, m2, rng);
            std::string mm = "c" + std::to_string(mount_n++);
            sim::mount(mm, img2, 100 + mount_n);
            DirectoryPtr d2 = openDir(mm, false);
            IndexReaderPtr r2 = IndexReader::open(d2, true);
            Snapshot s4 = readState(r2);
            if (!(s4.uids == after || (s3 < s1 && s4.uids == before))) {
                expectSeq(s4.uids, s3 < s1 ? before : after, "crash-durability", c + ", then a second crash while recovering");
            }
            verifyReader(r2, s4, verifyBits, rng, "after the second crash");
            r2->close();
            sim::unmount(mm);
            sim::freeDisk(img2);
            sim::stat("crash_recoveries");
        }
    });
    sim::unmount(m);
    sim::freeDisk(img);
}

void World::crashChecks(int n, sim::Rng& rng, bool recover, uint64_t fromLog) {
    if (!disk) {
        return;
    }
    std::vector<uint64_t> hot = sim::interestingSeqs(disk);
    uint64_t end = sim::diskSeq(disk);
    for (int i = 0; i < n; ++i) {
        uint64_t s = rng.below(3) && !hot.empty() ? hot[rng.below(hot.size())] : fromLog + rng.below(end - fromLog + 1);
        if (s < fromLog) {
            s = fromLog + rng.below(end - fromLog + 1);
        }
        sim::CrashMode m;
        m.metadata = 0;
        m.data = (int)rng.below(4);
        if (m.data > 2) {
            m.data = 2;
        }
        crashCheck(s, m, rng.next(), recover && rng.below(3) == 0);
    }
}

// ---------------------------------------------------------------- running
void World::start(bool create) {
    noThrow("opening the index", [&] {
        size_t c = beginCommit(0); // creating an index commits it empty, without user data
        dir = openDir(mnt, true);
        w = openWriter(dir, create);
        w->commit();
        endCommit(c, true);
    });
}

void World::onError(int t, const Op& op, const LuceneException& e) {
    sim::violation("unexpected-exception", std::string(opName(op.kind)) + " in thread " + std::to_string(t) + ": " + excText(e));
}

void World::exec(int t, const Op& op) {
    sim::progress();
    if (sim::g_verbose) {
        sim::logf("t%d %s %lld %lld", t, opName(op.kind), (long long)op.a, (long long)op.b);
    }
    sim::event(opName(op.kind), op.a, op.b);
    int ids = (int)p.get("ids", 8);
    uint64_t id = (uint64_t)op.a % (uint64_t)ids;
    uint64_t key = ((uint64_t)t << 20) | id;
    size_t hi = (size_t)-1, ci = (size_t)-1;
    HOp h;
    h.kind = op.kind;
    try {
        switch (op.kind) {
        case O_ADD: {
            uint64_t u = newUid(t, id);
            h.adds.push_back(u);
            hi = beginOp(t, h);
            w->addDocument(makeDoc(u));
            endOp(t, hi, false);
            sim::stat("docs_added");
            break;
        }
        case O_UPD: {
            uint64_t u = newUid(t, id);
            h.adds.push_back(u);
            h.delKeys.insert(key);
            hi = beginOp(t, h);
            w->updateDocument(newLucene<Term>(L"id", idText(key)), makeDoc(u));
            endOp(t, hi, false);
            sim::stat("docs_updated");
            break;
        }
        case O_DELID: {
            h.delKeys.insert(key);
            hi = beginOp(t, h);
            w->deleteDocuments(newLucene<Term>(L"id", idText(key)));
            endOp(t, hi, false);
            break;
        }
        case O_DELTERMS: {
            Collection<TermPtr> terms = Collection<TermPtr>::newInstance();
            int n = 1 + (int)(op.b % 4);
            for (int i = 0; i < n; ++i) {
                uint64_t k = ((uint64_t)t << 20) | ((uint64_t)(op.a + i * 3) % (uint64_t)ids);
                h.delKeys.insert(k);
                terms.add(newLucene<Term>(L"id", idText(k)));
            }
            hi = beginOp(t, h);
            w->deleteDocuments(terms);
            endOp(t, hi, false);
            break;
        }
        case O_DELGRP: {
            h.delGrp = (int)(op.a % 3);
            hi = beginOp(t, h);
            w->deleteDocuments(boost::static_pointer_cast<Query>(newLucene<TermQuery>(newLucene<Term>(L"grp", grpText(t, h.delGrp)))));
            endOp(t, hi, false);
            break;
        }
        case O_DELNUM: {
            h.numLo = t * 1000 + (int)(op.a % 64);
            h.numHi = std::min(t * 1000 + 63, h.numLo + (int)(op.b % 12));
            hi = beginOp(t, h);
            w->deleteDocuments(boost::static_pointer_cast<Query>(NumericRangeQuery::newIntRange(L"num", 4, h.numLo, h.numHi, true, true)));
            endOp(t, hi, false);
            break;
        }
        case O_COMMIT: {
            if (prepared) {
                exec(t, Op{op.th, O_FINISH, 0, 0, 0});
                break;
            }
            ci = beginCommit(nextTag++);
            w->commit(tagMap(commits[ci].tag));
            endCommit(ci, true);
            sim::stat("commits");
            break;
        }
        case O_PREPARE: {
            if (!exact || prepared) {
                break;
            }
            // without changes there is nothing to prepare, and the second phase would be a commit of its own
            exec(t, Op{op.th, O_ADD, op.b, op.a, op.c});
            ci = beginCommit(nextTag++);
            commits[ci].rolledBack = true; // until the second phase begins
            prepared = true;
            w->prepareCommit(tagMap(commits[ci].tag));
            commits[ci].hi = invokedNow();
            sim::stat("prepares");
            break;
        }
        case O_FINISH: {
            if (!prepared) {
                break;
            }
            ci = commits.size() - 1;
            commits[ci].rolledBack = false;
            commits[ci].inv = stamp();
            std::vector<int> keep = commits[ci].hi;
            prepared = false;
            w->commit();
            endCommit(ci, true);
            commits[ci].hi = keep;
            sim::stat("two_phase_commits");
            break;
        }
        case O_ROLLBACK: {
            if (!exact) {
                break;
            }
            h.reset = true;
            for (size_t k = commits.size(); k-- > 0;) {
                if (commits[k].acked) {
                    h.to = stateAt(t, commits[k].lo[(size_t)t]);
                    break;
                }
            }
            hi = beginOp(t, h);
            if (prepared) {
                prepared = false;
            }
            w->rollback();
            endOp(t, hi, false);
            sim::stat("rollbacks");
            retireNrt();
            w = openWriter(dir, false);
            break;
        }
        case O_OPTIMIZE:
            w->optimize(1 + (int)(op.a % 3), op.b & 1);
            sim::stat("optimizes");
            break;
        case O_EXPUNGE:
            w->expungeDeletes(op.b & 1);
            sim::stat("expunges");
            break;
        case O_MAYBEMERGE:
            w->maybeMerge();
            break;
        case O_WAITMERGES:
            w->waitForMerges();
            break;
        case O_GETREADER: {
            std::vector<int> lo = doneNow();
            IndexReaderPtr r = w->getReader();
            checkNrt(r, lo, invokedNow(), ctx("getReader"));
            r->close();
            sim::stat("nrt_readers");
            break;
        }
        case O_REOPENNRT: {
            // hold one reader per thread and reopen it
            HeldPtr mine;
            for (HeldPtr& x : held) {
                if (x->owner == t) {
                    mine = x;
                }
            }
            std::vector<int> lo = doneNow();
            HeldPtr x = std::make_shared<Held>();
            x->nrt = true;
            x->owner = t;
            x->what = "nrt of thread " + std::to_string(t);
            if (!mine) {
                x->r = w->getReader();
                checkNrt(x->r, lo, invokedNow(), ctx("getReader"));
                x->dump = dumpReader(x->r);
                x->snap = readState(x->r);
                held.push_back(x);
            } else {
                x->r = mine->r->reopen();
                checkNrt(x->r, lo, invokedNow(), ctx("NRT reopen"));
                if (x->r != mine->r) {
                    recheckHeld(mine);
                    x->dump = dumpReader(x->r);
                    x->snap = readState(x->r);
                    held.push_back(x);
                    mine->owner = -1;
                    if (!mine->users) {
                        held.erase(std::find(held.begin(), held.end(), mine));
                        mine->r->close();
                    }
                }
                sim::stat("nrt_reopens");
            }
            break;
        }
        case O_OPENREADER:
            checkOpen(op, t);
            sim::stat("opened_readers");
            break;
        case O_HOLD: {
            if (held.size() > 6 + (size_t)nth) {
                break;
            }
            HeldPtr x = std::make_shared<Held>();
            x->nrt = op.a & 1;
            if (x->nrt) {
                std::vector<int> lo = doneNow();
                x->r = w->getReader();
                checkNrt(x->r, lo, invokedNow(), ctx("getReader"));
                x->what = "getReader at step " + std::to_string(sim::stepCount());
            } else {
                Stamp b = stamp();
                x->r = IndexReader::open(dir, op.a & 2);
                Stamp e = stamp();
                x->snap = readState(x->r);
                checkCommitted(x->snap.uids, tagOf(x->r), b, e, false, "commit-visibility", ctx("IndexReader::open"));
                x->what = "open at step " + std::to_string(sim::stepCount());
            }
            x->snap = readState(x->r);
            if (op.b & 1) {
                verifyReader(x->r, x->snap, verifyBits, hrng, "reader to hold");
            }
            x->dump = dumpReader(x->r);
            held.push_back(x);
            sim::stat("held_readers");
            break;
        }
        case O_RECHECK:
            if (!held.empty()) {
                recheckHeld(held[(size_t)op.a % held.size()]);
            }
            break;
        case O_RELEASE:
            if (!held.empty()) {
                HeldPtr x = held[(size_t)op.a % held.size()];
                if (x->owner >= 0 || x->users) {
                    break;
                }
                held.erase(std::find(held.begin(), held.end(), x));
                recheckHeld(x);
                x->r->close();
                sim::stat("released_readers");
            }
            break;
        case O_CLOSEREOPEN: {
            if (!exact) {
                break;
            }
            if (prepared) {
                exec(t, Op{op.th, O_FINISH, 0, 0, 0});
            }
            if (op.a & 1) {
                ci = beginCommit(nextTag++);
                w->commit(tagMap(commits[ci].tag));
                endCommit(ci, true);
            }
            // close() commits what is left
            ci = beginCommit(0);
            inheritTags(ci);
            w->close(op.b & 1);
            endCommit(ci, true);
            retireNrt();
            w = openWriter(dir, false);
            sim::stat("close_reopens");
            break;
        }
        case O_ADDINDEXES:
        case O_ADDREADERS: {
            sim::Rng rr(sim::mix((uint64_t)op.a, (uint64_t)op.b));
            int nd = 1 + (int)rr.below(2);
            std::vector<DirectoryPtr> dirs;
            for (int d = 0; d < nd; ++d) {
                DirectoryPtr src = newLucene<RAMDirectory>();
                IndexWriterPtr x = newLucene<IndexWriter>(src, analyzer, true, IndexWriter::MaxFieldLengthUNLIMITED);
                x->setMaxBufferedDocs(2 + (int)rr.below(3));
                x->setMergeFactor(2 + (int)rr.below(4));
                x->setUseCompoundFile(rr.below(2));
                x->setMergeScheduler(newLucene<SerialMergeScheduler>());
                int n = 1 + (int)rr.below(6);
                std::vector<uint64_t> in;
                for (int i = 0; i < n; ++i) {
                    uint64_t u = newUid(t, rr.below((uint64_t)ids));
                    x->addDocument(makeDoc(u));
                    in.push_back(u);
                }
                if (rr.below(2)) {
                    uint64_t victim = in[rr.below(in.size())];
                    x->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(victim))));
                    in.erase(std::find(in.begin(), in.end(), victim));
                }
                x->close();
                dirs.push_back(src);
                h.adds.insert(h.adds.end(), in.begin(), in.end());
            }
            h.bulk = op.kind == O_ADDINDEXES;
            hi = beginOp(t, h);
            if (op.kind == O_ADDINDEXES) {
                Collection<DirectoryPtr> c = Collection<DirectoryPtr>::newInstance();
                for (DirectoryPtr& d : dirs) {
                    c.add(d);
                }
                w->addIndexesNoOptimize(c);
            } else {
                Collection<IndexReaderPtr> c = Collection<IndexReaderPtr>::newInstance();
                for (DirectoryPtr& d : dirs) {
                    c.add(IndexReader::open(d, true));
                }
                LuceneException err;
                try {
                    w->addIndexes(c);
                } catch (LuceneException& e) {
                    err = e;
                }
                for (int i = 0; i < c.size(); ++i) {
                    c[i]->close();
                }
                err.throwException();
            }
            endOp(t, hi, false);
            sim::stat("add_indexes");
            break;
        }
        case O_DELALL:
            if (!exact) {
                break;
            }
            h.delAll = true;
            hi = beginOp(t, h);
            w->deleteAll();
            endOp(t, hi, false);
            sim::stat("delete_alls");
            break;
        case O_SETTING:
            switch (op.a % 5) {
            case 0:
                if (!p.get("ramkb")) {
                    w->setMaxBufferedDocs(2 + (int)(op.b % 6));
                }
                break;
            case 1: w->setMergeFactor(2 + (int)(op.b % 5)); break;
            case 2: w->setUseCompoundFile(op.b & 1); break;
            case 3: w->setMaxBufferedDeleteTerms(1 + (int)(op.b % 6)); break;
            case 4: w->setTermIndexInterval(1 + (int)(op.b % 40)); break;
            }
            break;
        case O_THROWDOC: {
            uint64_t u = makeUid(t, id, ++ver[(size_t)t]);
            bool threw = false;
            try {
                if (op.b & 128) {
                    // replaces nothing: the term matches no document
                    w->updateDocument(newLucene<Term>(L"id", L"nosuch"), makeThrowingDoc(u, (int)(op.b & 7), (int)op.c));
                } else {
                    w->addDocument(makeThrowingDoc(u, (int)(op.b & 7), (int)op.c));
                }
            } catch (IOException& e) {
                if (e.getError().find(L"injected token stream failure") == String::npos) {
                    throw;
                }
                threw = true;
            }
            if (!threw) {
                sim::violation("error-swallowed", "addDocument returned although the token stream of a field threw");
            }
            sim::stat("throwing_docs");
            break;
        }
        case O_SLEEP:
            sim::sleepNs((1 + op.a % 400) * 1000000LL);
            break;
        case O_CRASH:
            if (disk) {
                sim::CrashMode m;
                m.data = (int)(op.b % 3);
                crashCheck(sim::diskSeq(disk), m, (uint64_t)op.a * 7919 + 13, op.c & 1);
            }
            break;
        case O_COUNTS: {
            if (!exact || prepared) {
                break;
            }
            ci = beginCommit(nextTag++);
            w->commit(tagMap(commits[ci].tag));
            endCommit(ci, true);
            std::vector<uint64_t> s = finalState(t);
            int nd = w->numDocs();
            // buffered deletions are not counted: a merge in the background may carry some over after the commit
            if (nd < (int)s.size() || (nd > (int)s.size() && p.get("ms"))) {
                sim::violation("writer-numdocs", "IndexWriter::numDocs() is " + std::to_string(nd) + " after commit, the index holds " + std::to_string(s.size()));
            }
            if (w->maxDoc() < (int)s.size()) {
                sim::violation("writer-numdocs", "IndexWriter::maxDoc() is " + std::to_string(w->maxDoc()));
            }
            break;
        }
        default:
            if (extraOp) {
                extraOp(t, op);
            }
            break;
        }
    } catch (LuceneException& e) {
        if (hi != (size_t)-1 && !hist[(size_t)t][hi].isDone) {
            endOp(t, hi, true);
        }
        if (ci != (size_t)-1 && !commits[ci].acked) {
            std::vector<int> keep = commits[ci].hi;
            endCommit(ci, false);
            if (!keep.empty()) {
                commits[ci].hi = keep;
            }
        }
        onError(t, op, e);
    }
}

void World::body(int t) {
    for (const Op& op : p.ops) {
        if (op.th == t) {
            if (stop) {
                break;
            }
            exec(t, op);
        }
    }
}

void World::run() {
    if (nth == 1) {
        body(0);
        return;
    }
    std::vector<sim::Tid> ts;
    for (int t = 0; t < nth; ++t) {
        ts.push_back(sim::go([this, t] { body(t); }));
    }
    for (sim::Tid t : ts) {
        sim::join(t);
    }
}

void World::finish() {
    noThrow("closing", [&] {
        if (prepared) {
            exec(0, Op{0, O_FINISH, 0, 0, 0});
        }
        for (HeldPtr x : held) {
            recheckHeld(x);
        }
        size_t c = beginCommit(nextTag++);
        bool early = hrng.below(2);
        if (early) {
            w->commit(tagMap(commits[c].tag));
            w->close(hrng.below(2));
        } else {
            // commit() first so that the tag is recorded, then close with merges possibly running
            w->commit(tagMap(commits[c].tag));
            w->close();
        }
        endCommit(c, true);
        w.reset();
        for (HeldPtr x : held) {
            recheckHeld(x);
            x->r->close();
        }
        held.clear();
        IndexReaderPtr r = IndexReader::open(dir, true);
        Snapshot s = readState(r);
        std::vector<int> n = invokedNow();
        checkWindow(s.uids, n, n, "final-content", "after close");
        if (exact) {
            expectSeq(s.uids, finalState(0), "final-content", "after close");
        }
        verifyReader(r, s, V_ALL, hrng, "after close");
        r->close();
    });
}

void World::closeAll() {
    noThrow("closing the directory", [&] {
        if (dir) {
            dir->close();
            dir.reset();
        }
    });
}

// ---------------------------------------------------------------- generation
void genConfig(Plan& p, sim::Rng& r, int tier) {
    p.set("dir", 1 + (int64_t)r.below(2));
    p.set("lock", 0);
    if (r.below(4) == 0) {
        p.set("ramkb", 1 + (int64_t)r.below(60));
    } else {
        p.set("mbd", 2 + (int64_t)r.below(6));
    }
    if (r.below(2)) {
        p.set("mbdel", 1 + (int64_t)r.below(6));
    }
    p.set("mf", 2 + (int64_t)r.below(4));
    p.set("mp", (int64_t)r.below(2));
    if (p.get("mp")) {
        p.set("minmerge", r.below(2) ? 1 + (int64_t)r.below(4) : 0);
    } else {
        p.set("minmerge", r.below(2) ? 1 + (int64_t)r.below(10) : 0);
    }
    p.set("cfs", (int64_t)r.below(2));
    p.set("cfsdoc", (int64_t)r.below(2));
    if (r.below(3) == 0) {
        p.set("cfsratio", (int64_t)r.below(101));
    }
    if (r.below(6) == 0) {
        p.set("maxmerge", 4 + (int64_t)r.below(12));
    }
    p.set("calib", (int64_t)r.below(2));
    p.set("ms", r.below(3) == 0);
    p.set("msn", 1 + (int64_t)r.below(3));
    if (r.below(3)) {
        p.set("tii", r.below(2) ? 1 + (int64_t)r.below(4) : 1 + (int64_t)r.below(128));
    }
    p.set("rich", r.below(5) == 0 ? 0 : r.below(6) == 0 ? 2 : 1);
    p.set("delpol", r.below(4) ? 0 : (int64_t)r.below(3));
    static const int bits[] = {V_ALL, V_ALL, V_STORED, V_STORED | V_TERMS, V_STORED | V_NORMS | V_VECTORS, V_STORED | V_QUERIES};
    p.set("v.bits", bits[r.below(6)]);
}

void genSched(Plan& p, sim::Rng& r, bool threads) {
    p.set("v.calm", r.below(3) != 0);
    p.set("s.policy", r.below(4) == 0);
    static const int sw[] = {400, 3000, 15000, 80000};
    p.set("s.switch_ppm", sw[r.below(4)]);
    p.set("s.pct_depth", 1 + (int64_t)r.below(5));
    p.set("s.pct_len", (2000LL << r.below(8)) + (int64_t)r.below(4000));
    static const int bb[] = {0, 0, 400, 3000, 20000, 100000};
    p.set("s.bb", bb[r.below(6)]);
    if (r.below(3) == 0) {
        p.set("s.jump_ppm", (int64_t)r.below(3000));
    }
    if (r.below(3) == 0) {
        p.set("s.stall_ppm", (int64_t)r.below(2000));
        p.set("s.stall_ns", 1000000LL << r.below(11));
    }
    if (r.below(4) == 0) {
        p.set("s.spurious_ppm", (int64_t)r.below(5000));
    }
    if (r.below(5) == 0) {
        p.set("s.clock_ppm", (int64_t)r.below(2000));
        p.set("s.clock_ns", 1000000000LL << r.below(12));
    }
}

void genOps(Plan& p, sim::Rng& r, const OpMix& mix, int threads, int perThread, int ids) {
    p.set("threads", threads);
    p.set("ids", ids);
    int total = 0;
    for (const std::pair<int, int>& x : mix.w) {
        total += x.second;
    }
    // each run favours some of the kinds
    std::vector<int> wt;
    int sum = 0;
    for (const std::pair<int, int>& x : mix.w) {
        int m = x.second;
        if (m && r.below(4) == 0 && x.first != O_ADD && x.first != O_UPD) {
            m = r.below(2) ? 0 : m * 4;
        }
        wt.push_back(m);
        sum += m;
    }
    for (int i = 0; i < perThread; ++i) {
        for (int t = 0; t < threads; ++t) {
            int k = (int)r.below((uint64_t)sum);
            size_t at = 0;
            while (k >= wt[at]) {
                k -= wt[at];
                ++at;
            }
            Op o;
            o.th = t;
            o.kind = mix.w[at].first;
            o.a = (int64_t)r.below(100000);
            o.b = (int64_t)r.below(100000);
            o.c = (int64_t)r.below(100000);
            p.ops.push_back(o);
        }
    }
    (void)total;
}
}
