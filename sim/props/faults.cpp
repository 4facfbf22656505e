// C03: an index on a failing disk. Failed operations may lose documents that were only buffered; nothing that was
// committed, and nothing that was acknowledged after the failure, may be lost, and the writer always recovers.
#include "world.h"
#include "MergePolicy.h"
#include <algorithm>
using namespace lu;
using namespace Lucene;

namespace {
struct FaultWorld : World {
    bool dirty = false;      // something failed since the content was last known exactly
    int base = 0;            // number of operations in the last content known exactly (committed)
    std::vector<uint64_t> baseUids;
    std::string baseTag;
    std::set<std::string> baseTags = {""}; // of commits with that content: one without changes writes nothing
    int lastFail = -1;       // operations before this one may have been lost
    bool attempt = false;    // a failed commit may have become visible
    std::set<std::string> failedTags;
    std::set<std::string> oldFailed; // of failed commits before the last rebase: until a segments file is written after them a crash may bring them back
    bool on = false;
    size_t seenCommits = 0;
    int crashesLeft = 6;

    explicit FaultWorld(const Plan& p) : World(p) {}

    void faults(bool b) {
        on = b;
        sim::enableFaults(b);
        int64_t full = p.get("full");
        if (full && disk) {
            sim::setDiskFull(disk, b ? full : -1);
        }
    }
    bool faultsHappened() { return sim::faultsFired() > 0 || p.get("full") > 0; }

    void failed() {
        dirty = true;
        lastFail = opsInvoked(0);
        sim::stat("operations_failed_by_faults");
    }
    virtual void onError(int t, const Op& op, const LuceneException& e) {
        if (!faultsHappened()) {
            World::onError(t, op, e);
        }
        if (op.kind == O_RECHECK || op.kind == O_RELEASE) {
            return;
        }
        if (op.kind == O_COMMIT) {
            attempt = true;
            failedTags.insert(std::to_string(commits.back().tag));
        }
        failed();
    }

    // content a commit may have when operations since the base may have been lost
    // (all: it also has everything that was acknowledged since the last failure)
    bool relaxed(const std::vector<uint64_t>& uids, bool all, std::string* why) {
        struct D {
            uint64_t u;
            bool must, may;
        };
        std::vector<D> ds;
        for (uint64_t u : baseUids) {
            ds.push_back({u, true, true});
        }
        for (int k = base; k < (int)hist[0].size(); ++k) {
            const HOp& h = hist[0][(size_t)k];
            bool certain = all && k >= lastFail && !h.failed;
            for (D& d : ds) {
                uint64_t u = d.u;
                if (h.delAll || h.delKeys.count(uidKey(u)) || (h.delGrp >= 0 && groupOf(u) == h.delGrp) || (numOf(u) >= h.numLo && numOf(u) <= h.numHi)) {
                    d.must = false;
                    if (certain) {
                        d.may = false;
                    }
                }
            }
            for (uint64_t u : h.adds) {
                ds.push_back({u, certain, true});
            }
        }
        std::map<uint64_t, size_t> at;
        for (size_t i = 0; i < ds.size(); ++i) {
            at[ds[i].u] = i;
        }
        std::set<uint64_t> seen;
        size_t last = 0;
        for (uint64_t u : uids) {
            auto it = at.find(u);
            if (it == at.end() || !ds[it->second].may) {
                *why = "document " + uidStr(u) + (it == at.end() ? " belongs neither to the last commit nor to anything added since" : " was deleted after the last failure");
                return false;
            }
            if (!seen.insert(u).second) {
                *why = "document " + uidStr(u) + " is there twice";
                return false;
            }
            if (it->second < last) {
                *why = "document " + uidStr(u) + " is out of order";
                return false;
            }
            last = it->second;
        }
        for (const D& d : ds) {
            if (d.must && !seen.count(d.u)) {
                bool old = std::find(baseUids.begin(), baseUids.end(), d.u) != baseUids.end();
                *why = "document " + uidStr(d.u) + (old ? " of the last commit is lost, although nothing deleted it" : ", added after the last failure, is lost");
                return false;
            }
        }
        // documents added together appear together
        for (int k = base; k < (int)hist[0].size(); ++k) {
            const HOp& h = hist[0][(size_t)k];
            if (!h.bulk) {
                continue;
            }
            size_t n = 0, dead = 0;
            for (uint64_t u : h.adds) {
                n += seen.count(u);
                dead += !ds[at[u]].must;
            }
            bool touched = false;
            for (int j = k + 1; j < (int)hist[0].size(); ++j) {
                const HOp& x = hist[0][(size_t)j];
                touched = touched || x.delAll || !x.delKeys.empty() || x.delGrp >= 0 || x.numHi >= x.numLo;
            }
            if (!touched && n != 0 && n != h.adds.size()) {
                *why = "only " + std::to_string(n) + " of " + std::to_string(h.adds.size()) + " documents added by one addIndexes are there";
                return false;
            }
        }
        return true;
    }
    // what a reader of the committed index, or an index found after a crash, shows
    void judge(const std::vector<uint64_t>& uids, const std::string& tag, const std::string& c) {
        sim::NoOom no;
        std::string cc = c + " [tag '" + tag + "', last acknowledged '" + baseTag + "'" + (dirty ? ", after failures" : "") + "]";
        if (!baseTags.count(tag) && !failedTags.count(tag)) {
            sim::violation("commit-visibility", cc + ": the content belongs to no commit or an old one; documents " + seqStr(uids));
        }
        if (uids == baseUids) {
            return;
        }
        if (!attempt) {
            expectSeq(uids, baseUids, "commit-visibility", cc);
        }
        std::string why;
        if (!relaxed(uids, false, &why)) {
            sim::violation("lost-after-failure", cc + ": " + why + "; visible " + seqStr(uids) + " last commit " + seqStr(baseUids));
        }
    }
    void rebase(const std::vector<uint64_t>& uids, const std::string& tag) {
        HOp h;
        h.kind = O_ROLLBACK;
        h.reset = true;
        h.to = uids;
        size_t i = beginOp(0, h);
        endOp(0, i, false);
        for (CommitRec& c : commits) {
            if (!c.acked) {
                c.rolledBack = true;
            }
        }
        size_t c = beginCommit(tag.empty() ? 0 : std::stoi(tag));
        endCommit(c, true);
        seenCommits = commits.size();
        base = opsDone(0);
        std::string baseTagBefore = baseTag;
        setBase(uids, tag);
        dirty = false;
        attempt = false;
        if (tag == baseTagBefore) {
            oldFailed.insert(failedTags.begin(), failedTags.end());
        } else {
            oldFailed.clear();
        }
        failedTags.clear();
        lastFail = -1;
        sim::stat("recoveries_checked");
    }
    void setBase(const std::vector<uint64_t>& uids, const std::string& tag) {
        if (uids != baseUids) {
            baseTags.clear();
        }
        baseUids = uids;
        baseTag = tag;
        baseTags.insert(tag);
    }
    void learn() { // after an operation that may have committed, with exact knowledge
        pollBackground();
        if (!dirty && commits.size() > seenCommits && commits.back().acked) {
            base = commits.back().lo[0];
            setBase(stateAt(0, base), commits.back().tag ? std::to_string(commits.back().tag) : "");
            attempt = false;
            failedTags.clear();
            oldFailed.clear();
            seenCommits = commits.size();
        }
    }
    // reads the committed content; the disk works
    void readCommitted(std::vector<uint64_t>* uids, std::string* tag, const char* c) {
        noThrow(c, [&] {
            IndexReaderPtr r = IndexReader::open(dir, true);
            Snapshot s = readState(r);
            *uids = s.uids;
            *tag = tagOf(r);
            verifyReader(r, s, verifyBits, hrng, c);
            r->close();
        });
    }
    void reopenWriter() {
        try {
            w = openWriter(dir, false);
        } catch (LuceneException& e) {
            bool was = on;
            faults(false);
            try {
                if (!was) {
                    throw;
                }
                w = openWriter(dir, false);
            } catch (LuceneException& e2) {
                sim::violation(olderCommits() ? "stuck-old-segments-file" : "stuck-after-failure", "the disk works again, but opening a writer fails: " + excText(e2));
            }
            faults(was);
        }
    }
    void finishWriter(const Op& op, bool closing) {
        bool was = on, ok = false, exactNow = !dirty;
        if (closing) {
            failedTags.insert(baseTags.begin(), baseTags.end());
            attempt = true;
        }
        try {
            if (closing) {
                w->close(op.b & 1);
            } else {
                w->rollback();
            }
            ok = true;
        } catch (LuceneException& e) {
            if (!faultsHappened()) {
                World::onError(0, op, e);
            }
            failed();
        }
        faults(false);
        pollBackground();
        exactNow = exactNow && !dirty;
        bool committed = closing;
        if (!ok) {
            // after the disk works again the writer can be closed or rolled back
            committed = op.c & 1;
            noThrow("closing a writer after the disk works again", [&] {
                if (committed) {
                    w->close();
                } else {
                    w->rollback();
                }
            });
        }
        std::vector<uint64_t> u;
        std::string tag;
        readCommitted(&u, &tag, "after the writer was closed");
        if (ok && closing && exactNow) {
            expectSeq(u, finalState(0), "lost-after-failure", "after close");
        } else if (committed) {
            std::string why;
            if (!relaxed(u, true, &why)) {
                sim::violation("lost-after-failure", "after close: " + why + "; visible " + seqStr(u) + " last commit " + seqStr(baseUids));
            }
        } else {
            judge(u, tag, "after rollback");
        }
        rebase(u, tag);
        faults(was);
        reopenWriter();
        learn();
    }
    std::string ackedTag() { // of the last commit that returned, before one without changes
        std::string t;
        for (size_t i = 0; i + 1 < commits.size(); ++i) {
            if (commits[i].acked) {
                t = commits[i].tag ? std::to_string(commits[i].tag) : "";
            }
        }
        return t;
    }
    void commitOp(const Op& op) {
        if (!dirty) {
            exec(0, op);
            learn();
            return;
        }
        size_t ci = beginCommit(nextTag++);
        std::string tag = std::to_string(commits[ci].tag);
        bool ok = false;
        try {
            w->commit(tagMap(commits[ci].tag));
            ok = true;
        } catch (LuceneException& e) {
            if (!on && lastFailOff++ > 3) {
                sim::violation("stuck-after-failure", "the disk works again, but commit keeps failing: " + excText(e));
            }
            attempt = true;
            failedTags.insert(tag);
            failed();
        }
        endCommit(ci, ok);
        if (!ok) {
            return;
        }
        lastFailOff = 0;
        bool was = on;
        pollBackground();
        faults(false);
        std::vector<uint64_t> u;
        std::string t2, why;
        readCommitted(&u, &t2, "after a commit that follows failures");
        if (t2 != tag && t2 != ackedTag() && !(u == baseUids && baseTags.count(t2))) {
            sim::violation("commit-visibility", "commit returned, but a reader finds the commit '" + t2 + "' instead of '" + tag + "'");
        }
        if (!relaxed(u, true, &why)) {
            sim::violation("lost-after-failure", "after a commit that follows failures: " + why + "; visible " + seqStr(u) + " last commit " + seqStr(baseUids));
        }
        rebase(u, t2);
        faults(was);
    }
    int lastFailOff = 0;
    int seenBg = 0;
    // A merge thread that fails may lose documents that it had to flush: the failure is reported by its exception.
    void pollBackground() {
        if (sim::backgroundFaults() != seenBg) {
            seenBg = sim::backgroundFaults();
            if (!commits.empty() && commits.back().tag) {
                attempt = true;
                failedTags.insert(std::to_string(commits.back().tag));
            }
            failed();
        }
    }

    bool olderCommits() {
        int n = 0;
        for (const std::string& f : indexFiles(disk)) {
            n += f.compare(0, 9, "segments_") == 0;
        }
        return n > 1;
    }
    void readerOp(const Op& op, bool nrt) {
        IndexReaderPtr r;
        try {
            r = nrt ? w->getReader() : IndexReader::open(dir, true);
            Snapshot s = readState(r);
            pollBackground();
            if (!nrt && on && olderCommits() && !baseTags.count(tagOf(r)) && !failedTags.count(tagOf(r))) {
                // The latest commit could not be read, and an older one is still there since it could not be deleted.
                sim::stat("older_commit_opened");
            } else if (!nrt) {
                judge(s.uids, tagOf(r), "an opened reader");
            } else if (!dirty) {
                std::vector<int> n = invokedNow();
                checkWindow(s.uids, n, n, "nrt-visibility", "getReader");
            } else {
                std::string why;
                if (!relaxed(s.uids, true, &why)) {
                    sim::violation("lost-after-failure", "getReader after failures: " + why + "; visible " + seqStr(s.uids) + " last commit " + seqStr(baseUids));
                }
            }
            verifyReader(r, s, verifyBits, hrng, "reader on a failing disk");
            sim::stat(nrt ? "nrt_readers" : "opened_readers");
        } catch (LuceneException& e) {
            if (!faultsHappened()) {
                World::onError(0, op, e);
            }
            if (nrt) {
                failed();
            }
        }
        if (r) {
            try {
                r->close();
            } catch (LuceneException&) {
            }
        }
    }
    void crashOp(const Op& op) {
        if (!disk || crashesLeft-- <= 0) {
            return;
        }
        bool was = on;
        faults(false);
        sim::Rng rng(sim::mix((uint64_t)op.a, 3));
        sim::CrashMode m;
        m.data = (int)(op.b % 3);
        sim::Disk* img = sim::crashImage(disk, sim::diskSeq(disk), m, rng);
        std::string mm = "c" + std::to_string(mount_n++);
        sim::mount(mm, img, 100 + mount_n);
        noThrow("opening the index after a crash", [&] {
            DirectoryPtr d = openDir(mm, false);
            IndexReaderPtr r = IndexReader::open(d, true);
            Snapshot s = readState(r);
            if (!baseTags.count(tagOf(r)) && oldFailed.count(tagOf(r))) {
                sim::stat("failed_commit_seen_after_crash");
            } else {
                judge(s.uids, tagOf(r), "after a crash");
            }
            verifyReader(r, s, verifyBits, rng, "after a crash");
            r->close();
            if (op.c & 1) {
                IndexWriterPtr x;
                try {
                    x = newLucene<IndexWriter>(d, analyzer, false, IndexWriter::MaxFieldLengthUNLIMITED);
                } catch (LuceneException& e) {
                    sim::violation(olderCommits() ? "stuck-old-segments-file" : "stuck-after-failure", "opening a writer after a crash fails: " + excText(e));
                }
                configure(x);
                uint64_t u = makeUid(0, 0xF0000, 0xF0000);
                x->addDocument(makeDoc(u));
                x->commit(tagMap(999999));
                x->close();
                std::vector<uint64_t> after = s.uids;
                after.push_back(u);
                r = IndexReader::open(d, true);
                Snapshot s2 = readState(r);
                expectSeq(s2.uids, after, "recovery-content", "after a crash, then continued writing");
                verifyReader(r, s2, verifyBits, rng, "after recovery");
                r->close();
            }
        });
        sim::unmount(mm);
        sim::freeDisk(img);
        sim::stat("crash_images");
        faults(was);
    }
    virtual void body(int t) {
        learn();
        int quiet = 0;
        for (const Op& op : p.ops) {
            if (sim::g_verbose) {
                sim::logf("op %s on=%d dirty=%d hist=%d base=%d lastFail=%d", opName(op.kind), on, dirty, (int)hist[0].size(), base, lastFail);
            }
            switch (op.kind) {
            case O_FAULTS:
                faults(op.a % 3 != 0);
                break;
            case O_COMMIT:
                sim::progress();
                commitOp(op);
                break;
            case O_ROLLBACK:
            case O_CLOSEREOPEN:
                sim::progress();
                finishWriter(op, op.kind == O_CLOSEREOPEN);
                break;
            case O_GETREADER:
            case O_OPENREADER:
                sim::progress();
                readerOp(op, op.kind == O_GETREADER);
                break;
            case O_CRASH:
                sim::progress();
                crashOp(op);
                break;
            case O_HOLD:
                if (!on && !dirty) {
                    exec(t, op);
                }
                break;
            default:
                exec(t, op);
            }
            if (dirty && !on && ++quiet > 6) {
                commitOp(Op{0, O_COMMIT, 0, 0, 0});
                quiet = 0;
            }
        }
    }
};

void gen(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", 1 + (int64_t)r.below(2));
    p.set("delpol", 0);
    genSched(p, r, r.below(2));
    p.set("f.max", 1 + (int64_t)r.below(8));
    // Files that cannot be deleted are a fault of their own: together with torn files they can block the index for good
    // (see known_findings.txt), which would hide everything else.
    bool undeletable = r.below(8) == 0;
    int combos = undeletable ? 0 : 1 + (int)r.below(3);
    if (undeletable) {
        p.setRate(sim::OC_UNLINK, sim::F_EACCES, r.below(2) ? 0.3 : 0.05);
    }
    for (int i = 0; i < combos; ++i) {
        static const double rates[] = {0.3, 0.05, 0.01, 0.003};
        double x = rates[r.below(4)];
        switch (r.below(7)) {
        case 0: p.setRate(sim::OC_WRITE, r.below(2) ? sim::F_EIO : sim::F_ENOSPC, x / 3); break;
        case 1: p.setRate(sim::OC_WRITE, sim::F_SHORT_ENOSPC, x / 3); break;
        case 2: p.setRate(sim::OC_FSYNC, sim::F_FSYNC_EIO, x); break;
        case 3: p.setRate(sim::OC_OPENW, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x); break;
        case 4: p.setRate(sim::OC_OPENR, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x); break;
        case 5: p.setRate(sim::OC_READ, sim::F_EIO, x / 3); break;
        default:
            p.setRate(sim::OC_LIST, sim::F_EIO, x);
            p.setRate(sim::OC_MMAP, sim::F_EIO, x);
        }
    }
    if (!undeletable && r.below(6) == 0) {
        p.set("full", 200LL << r.below(9));
    }
    if (!undeletable && r.below(4) == 0) {
        char key[64];
        static const char* nm[] = {"write", "open_write", "fsync", "read"};
        snprintf(key, sizeof key, "f.burst.%s", nm[r.below(4)]);
        p.set(key, 2 + (int64_t)r.below(6));
    }
    if (r.below(3) == 0) {
        p.setRate(sim::OC_READ, sim::F_SHORT, 0.05);
        p.setRate(sim::OC_WRITE, sim::F_SHORT, 0.05);
        p.setRate(sim::OC_WRITE, sim::F_EINTR, 0.02);
    }
    OpMix m;
    m.add(O_ADD, 30).add(O_UPD, 20).add(O_DELID, 6).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_DELTERMS, 2).add(O_COMMIT, 10).add(O_ROLLBACK, 2).add(O_OPTIMIZE, 3).add(O_EXPUNGE, 2).add(O_MAYBEMERGE, 1).add(O_WAITMERGES, 1).add(O_GETREADER, 4).add(O_OPENREADER, 3).add(O_CLOSEREOPEN, 3).add(O_ADDINDEXES, 2).add(O_ADDREADERS, 1).add(O_HOLD, 1).add(O_RECHECK, 1).add(O_SETTING, 1).add(O_FAULTS, 12).add(O_CRASH, 3);
    genOps(p, r, m, 1, 12 + (int)r.below(tier ? 120 : 50), 2 + (int)r.below(8));
    p.set("v.bits", r.below(3) ? V_STORED | V_TERMS : V_ALL);
}
void run(const Plan& p) {
    FaultWorld w(p);
    w.start();
    w.run();
    w.faults(false);
    w.pollBackground();
    if (w.dirty) {
        for (int i = 0; i < 5 && w.dirty; ++i) {
            w.commitOp(Op{0, O_COMMIT, 0, 0, 0});
        }
    }
    w.finish();
    // the files that failed operations left behind are removed by the next writer
    noThrow("opening and closing a writer", [&] {
        IndexWriterPtr x;
        try {
            x = w.openWriter(w.dir, false);
        } catch (LuceneException& e) {
            sim::violation(w.olderCommits() ? "stuck-old-segments-file" : "stuck-after-failure", "opening a writer fails on a working disk: " + excText(e));
        }
        x->close();
        x.reset();
        IndexReaderPtr r = IndexReader::open(w.dir, true);
        std::set<std::string> live;
        HashSet<String> fs = r->getIndexCommit()->getFileNames();
        for (HashSet<String>::iterator it = fs.begin(); it != fs.end(); ++it) {
            live.insert(narrow(*it));
        }
        r->close();
        for (const std::string& f : indexFiles(w.disk)) {
            if (!live.count(f) && f != "segments.gen" && f.find("lock") == std::string::npos) {
                sim::violation("orphan-file", "file " + f + " of a failed operation is still there after a writer was opened and closed");
            }
        }
        for (const std::string& f : live) {
            std::string b;
            if (!sim::readFile(w.disk, "idx/" + f, b)) {
                sim::violation("missing-file", "the index refers to " + f + ", which does not exist");
            }
        }
    });
    w.policy.reset();
    w.closeAll();
    if (sim::openFds() || sim::openMaps()) {
        sim::violation("leaked-handle", "open after everything was closed: " + sim::describeOpenFds());
    }
}
RegisterProp reg("C03", gen, run, lu::opName);
}
