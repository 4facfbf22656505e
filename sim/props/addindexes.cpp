// C12: adding whole indexes. Each call takes effect as a whole or not at all, whatever fails, and leaves its sources alone.
#include "world.h"
#include "FilterIndexReader.h"
#include "SerialMergeScheduler.h"
#include "MultiReader.h"
#include <algorithm>
#include <memory>
using namespace lu;
using namespace Lucene;

namespace {
enum AOp { A_DIRS = 100, A_READERS, A_BAD };
const char* addOpName(int k) {
    static const char* n[] = {"add-directories", "add-readers", "add-unusable"};
    return k >= 100 && k < 103 ? n[k - 100] : opName(k);
}

struct Source {
    DirectoryPtr dir;
    std::string mount;
    sim::Disk* disk = nullptr;
    std::vector<uint64_t> committed, live; // in the last commit; as the reader shows it
    std::vector<IndexReaderPtr> close;     // readers to close
    IndexReaderPtr reader;
    IndexWriterPtr writer;
    uint64_t files = 0;
};
typedef std::shared_ptr<Source> SourcePtr;

struct AddWorld : World {
    int nsrc = 0;
    bool faulty;
    int users = 0; // operations that want faults now
    bool refused = false; // a call was rolled back

    explicit AddWorld(const Plan& p) : World(p), faulty(p.get("faults") != 0) {
        extraOp = [this](int t, const Op& op) { extra(t, op); };
    }
    void faults(bool on) {
        users += on ? 1 : -1;
        apply();
    }
    // the harness reads a source: nothing fails meanwhile
    struct Quiet {
        explicit Quiet(AddWorld* w_) : w(w_) { ++w->quiet; w->apply(); }
        ~Quiet() { --w->quiet; w->apply(); }
        AddWorld* w;
    };
    int quiet = 0;
    void apply() {
        bool hurt = users > 0 && quiet == 0;
        sim::enableFaults(hurt);
        int64_t full = p.get("full");
        if (full && disk) {
            sim::setDiskFull(disk, hurt ? full : -1);
        }
    }
    bool anyFault() { return sim::faultsFired() > 0 || (faulty && p.get("full")); }

    // a merge of foreign segments runs in whatever thread asks for merges: its failure may surface there
    void onError(int t, const Op& op, const LuceneException& e) override {
        if (refused && (op.kind == O_OPTIMIZE || op.kind == O_EXPUNGE) && e.getError().find(L"merge") != String::npos) {
            sim::stat("merges_aborted");
            return; // a call that is rolled back aborts all merges
        }
        if (!anyFault() || op.kind == O_OPENREADER) {
            World::onError(t, op, e);
        }
        if (!hist[(size_t)t].empty() && hist[(size_t)t].back().failed) {
            hist[(size_t)t].back().failed = false; // it took effect all the same
        }
        sim::stat("merge_failures_reported_elsewhere");
    }

    static uint64_t filesOf(const DirectoryPtr& d) {
        HashSet<String> l = d->listAll();
        std::set<std::string> names;
        for (HashSet<String>::iterator f = l.begin(); f != l.end(); ++f) {
            names.insert(narrow(*f));
        }
        uint64_t h = 1;
        for (const std::string& n : names) {
            if (n.find("lock") != std::string::npos) {
                continue;
            }
            h = hashBytes(h, n.data(), n.size());
            IndexInputPtr in = d->openInput(wide(n));
            ByteArray buf = ByteArray::newInstance(4096);
            for (int64_t left = in->length(); left > 0;) {
                int m = (int)std::min<int64_t>(left, 4096);
                in->readBytes(buf.get(), 0, m);
                h = hashBytes(h, buf.get(), (size_t)m);
                left -= m;
            }
            in->close();
        }
        return h;
    }
    SourcePtr build(int t, sim::Rng& g, bool asReader) {
        Quiet q(this);
        SourcePtr s = std::make_shared<Source>();
        int ids = (int)p.get("ids", 8);
        RAMDirectoryPtr rd = newLucene<RAMDirectory>();
        IndexWriterPtr x = newLucene<IndexWriter>(rd, analyzer, true, IndexWriter::MaxFieldLengthUNLIMITED);
        x->setMaxBufferedDocs(2 + (int)g.below(5));
        x->setMergeFactor(2 + (int)g.below(6));
        x->setUseCompoundFile(g.below(2));
        x->setMergeScheduler(newLucene<SerialMergeScheduler>());
        if (g.below(2)) {
            x->setTermIndexInterval(1 + (int)g.below(8));
        }
        int n = (int)g.below(g.below(4) ? 7 : 20);
        auto add = [&](int k) {
            for (int i = 0; i < k; ++i) {
                uint64_t u = newUid(t, g.below((uint64_t)ids));
                x->addDocument(makeDoc(u));
                s->live.push_back(u);
                if (g.below(8) == 0) {
                    x->commit();
                }
            }
        };
        auto del = [&](const std::function<void(uint64_t)>& f) {
            for (int i = (int)g.below(3); i > 0 && !s->live.empty(); --i) {
                uint64_t v = s->live[g.below(s->live.size())];
                f(v);
                s->live.erase(std::find(s->live.begin(), s->live.end(), v));
            }
        };
        add(n);
        del([&](uint64_t v) { x->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(v)))); });
        bool nrt = asReader && g.below(4) == 0;
        x->commit();
        s->committed = s->live;
        s->dir = rd;
        if (nrt) {
            add(1 + (int)g.below(4));
            del([&](uint64_t v) { x->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(v)))); });
            s->writer = x;
            s->reader = x->getReader();
            s->close.push_back(s->reader);
        } else {
            x->close();
            if (!ram && g.below(4)) {
                // onto a disk of its own
                s->disk = sim::newDisk();
                s->mount = "s" + std::to_string(nsrc++);
                sim::mount(s->mount, s->disk, proc);
                HashSet<String> l = rd->listAll();
                for (HashSet<String>::iterator f = l.begin(); f != l.end(); ++f) {
                    IndexInputPtr in = rd->openInput(*f);
                    std::string b((size_t)in->length(), 0);
                    in->readBytes((uint8_t*)&b[0], 0, (int)b.size());
                    in->close();
                    sim::writeFile(s->disk, "idx/" + narrow(*f), b);
                }
                String path = wide(pathOf(s->mount));
                if (g.below(2)) {
                    s->dir = newLucene<MMapDirectory>(path);
                } else {
                    s->dir = newLucene<SimpleFSDirectory>(path);
                }
            }
            if (asReader) {
                bool ro = g.below(2);
                s->reader = IndexReader::open(s->dir, ro);
                s->close.push_back(s->reader);
                if (!ro) {
                    IndexReaderPtr r = s->reader;
                    del([&](uint64_t v) { r->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(v)))); });
                }
            }
        }
        s->files = filesOf(s->dir);
        return s;
    }
    void drop(const SourcePtr& s) {
        Quiet q(this);
        bool nrt = s->writer != nullptr;
        for (IndexReaderPtr& r : s->close) {
            if (r == s->reader) {
                Snapshot now = readState(r);
                expectSeq(now.uids, s->live, "source-changed", "the reader whose index was added");
            }
            r->close();
        }
        s->close.clear();
        s->reader.reset();
        if (s->writer) {
            s->writer->rollback();
            s->writer.reset();
        } else if (s->live == s->committed && filesOf(s->dir) != s->files) {
            sim::violation("source-changed", "the files of an index that was added are not what they were");
        }
        if (IndexWriter::isLocked(s->dir)) {
            sim::violation("source-changed", std::string("an index that was added is still locked (") + (s->disk ? "on disk, " : "in memory, ") + (nrt ? "of a writer)" : s->live == s->committed ? "without pending deletions)" : "with pending deletions)"));
        }
        s->dir->close();
        s->dir.reset();
        if (s->disk) {
            sim::unmount(s->mount);
            sim::freeDisk(s->disk);
            s->disk = nullptr;
        }
    }
    void extra(int t, const Op& op) {
        sim::Rng g(sim::mix((uint64_t)op.a, (uint64_t)op.b * 3 + 1));
        if (op.kind == A_BAD) {
            bad(t, g);
            return;
        }
        bool readers = op.kind == A_READERS;
        int n = 1 + (int)g.below(3);
        HOp h;
        h.kind = readers ? O_ADDREADERS : O_ADDINDEXES;
        h.bulk = !readers;
        std::vector<SourcePtr> src;
        for (int i = 0; i < n; ++i) {
            src.push_back(build(t, g, readers));
            const std::vector<uint64_t>& v = readers ? src.back()->live : src.back()->committed;
            h.adds.insert(h.adds.end(), v.begin(), v.end());
        }
        Collection<DirectoryPtr> cd = Collection<DirectoryPtr>::newInstance();
        Collection<IndexReaderPtr> cr = Collection<IndexReaderPtr>::newInstance();
        for (size_t i = 0; i < src.size(); ++i) {
            if (!readers) {
                cd.add(src[i]->dir);
            } else if (i + 1 < src.size() && g.below(4) == 0) {
                Collection<IndexReaderPtr> two = newCollection<IndexReaderPtr>(src[i]->reader, src[i + 1]->reader);
                IndexReaderPtr m = newLucene<MultiReader>(two, false);
                cr.add(m);
                src[i]->close.insert(src[i]->close.begin(), m);
                ++i;
                sim::stat("multi_readers_added");
            } else if (g.below(6) == 0) {
                cr.add(newLucene<FilterIndexReader>(src[i]->reader));
                sim::stat("filter_readers_added");
            } else {
                cr.add(src[i]->reader);
            }
        }
        bool hurt = faulty && g.below(4) != 0;
        if (hurt && nth == 1) {
            w->getReader()->close(); // nothing is buffered that a failing flush could lose
        }
        int before = sim::faultsFired();
        size_t i = beginOp(t, h);
        if (hurt) {
            faults(true);
        }
        bool threw = false;
        std::string text;
        try {
            if (readers) {
                w->addIndexes(cr);
            } else {
                w->addIndexesNoOptimize(cd);
            }
        } catch (LuceneException& e) {
            threw = true;
            text = excText(e);
        }
        if (hurt) {
            faults(false);
        }
        cr.clear();
        cd.clear();
        if (!threw) {
            endOp(t, i, false);
            sim::stat("indexes_added");
        } else {
            bool cause = sim::faultsFired() != before || (hurt && p.get("full")) || (nth > 1 && faulty && sim::faultsFired());
            if (!cause) {
                sim::violation("unexpected-exception", std::string(addOpName(op.kind)) + " in thread " + std::to_string(t) + ": " + text);
            }
            settle(t, i, text);
        }
        noThrow("after adding indexes", [&] {
            for (SourcePtr& s : src) {
                drop(s);
            }
        });
    }
    // a failed call added all or nothing: find out which
    void settle(int t, size_t i, const std::string& text) {
        noThrow("after a failed addIndexes", [&] {
            Quiet q(this);
            IndexReaderPtr r = w->getReader();
            Snapshot s = readState(r);
            std::vector<uint64_t> mine = split(s.uids, "after a failed addIndexes")[(size_t)t];
            if (mine == stateAt(t, (int)i + 1) && !hist[(size_t)t][i].adds.empty()) {
                sim::stat("failed_calls_that_added_all");
            } else if (mine == stateAt(t, (int)i)) {
                sim::stat("failed_calls_that_added_nothing");
                if (hist[(size_t)t][i].bulk) {
                    hist[(size_t)t][i].full = stateAt(t, (int)i + 1);
                }
                states[(size_t)t].resize(i + 1);
                hist[(size_t)t][i].adds.clear();
            } else {
                sim::violation("partly-added", "after addIndexes failed (" + text + ") the documents of thread " + std::to_string(t) + " are " + seqStr(mine) + "; before they were " + seqStr(stateAt(t, (int)i)) + ", all added they would be " + seqStr(stateAt(t, (int)i + 1)));
            }
            verifyReader(r, s, verifyBits, hrng, "after a failed addIndexes");
            r->close();
            endOp(t, i, false);
        });
    }
    void bad(int t, sim::Rng& g) {
        SourcePtr s = build(t, g, false);
        Collection<DirectoryPtr> cd = Collection<DirectoryPtr>::newInstance();
        int how = (int)g.below(4);
        DirectoryPtr empty = newLucene<RAMDirectory>();
        if (g.below(2)) {
            cd.add(s->dir);
        }
        switch (how) {
        case 0: cd.add(dir); break;
        case 1: cd.add(s->dir); cd.add(s->dir); break;
        case 2: cd.add(empty); break;
        default: cd.add(empty); cd.add(s->dir); break;
        }
        bool threw = false;
        refused = true;
        try {
            w->addIndexesNoOptimize(cd);
        } catch (LuceneException&) {
            threw = true;
        }
        if (!threw) {
            sim::violation("unusable-accepted", "addIndexesNoOptimize returned although an index could not be added (" + std::to_string(how) + ")");
        }
        cd.clear();
        sim::stat("unusable_indexes_refused");
        noThrow("after a refused index", [&] { drop(s); });
    }
    void leftovers() {
        if (!disk || (faulty && p.get("f.only") != 1 && sim::faultsFired())) {
            return; // removing files may have failed, too
        }
        IndexReaderPtr r = IndexReader::open(dir, true);
        std::set<std::string> live;
        HashSet<String> fs = r->getIndexCommit()->getFileNames();
        for (HashSet<String>::iterator it = fs.begin(); it != fs.end(); ++it) {
            live.insert(narrow(*it));
        }
        r->close();
        for (const std::string& f : indexFiles(disk)) {
            if (!live.count(f) && f != "segments.gen" && f.find("lock") == std::string::npos) {
                sim::violation("orphan-file", "file " + f + " belongs to nothing after the writer was closed");
            }
        }
    }
};

void gen12(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(6) ? 1 + (int64_t)r.below(2) : 0);
    p.set("delpol", 0);
    genSched(p, r, true);
    int th = r.below(5) < 2 ? 1 : 2 + (int)r.below(3);
    if (p.get("dir") && r.below(4)) {
        p.set("faults", 1);
        p.set("f.max", 1 + (int64_t)r.below(12));
        p.set("f.only", th > 1 ? 1 : (int64_t)r.below(3));
        static const double rates[] = {0.2, 0.03, 0.01, 0.003};
        for (int i = 1 + (int)r.below(3); i > 0; --i) {
            double x = rates[r.below(4)];
            switch (r.below(p.get("f.only") == 1 ? 3 : 6)) {
            case 0: p.setRate(sim::OC_READ, sim::F_EIO, x / 2); break;
            case 1: p.setRate(sim::OC_OPENR, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x); break;
            case 2: p.setRate(sim::OC_MMAP, sim::F_EIO, x); p.setRate(sim::OC_LIST, sim::F_EIO, x); break;
            case 3: p.setRate(sim::OC_WRITE, r.below(2) ? sim::F_EIO : sim::F_ENOSPC, x / 2); break;
            case 4: p.setRate(sim::OC_WRITE, sim::F_SHORT_ENOSPC, x / 2); break;
            default: p.setRate(sim::OC_OPENW, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x);
            }
        }
        if (th == 1 && p.get("f.only") != 1 && r.below(4) == 0) {
            p.set("full", 200LL << r.below(8));
        }
    }
    OpMix m;
    m.add(A_DIRS, 12).add(A_READERS, 10).add(A_BAD, 2).add(O_ADD, 14).add(O_UPD, 12).add(O_DELID, 5).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_COMMIT, 4).add(O_OPTIMIZE, 2).add(O_EXPUNGE, 1).add(O_MAYBEMERGE, 1).add(O_WAITMERGES, 1).add(O_GETREADER, 4).add(O_REOPENNRT, 3).add(O_OPENREADER, 2).add(O_HOLD, 1).add(O_RECHECK, 1).add(O_CLOSEREOPEN, 1).add(O_COUNTS, th == 1 ? 2 : 0);
    genOps(p, r, m, th, 5 + (int)r.below(tier ? (th == 1 ? 60 : 30) : th == 1 ? 30 : 14), 2 + (int)r.below(8));
    p.set("crashes", p.get("dir") && r.below(3) == 0 ? 2 + (int64_t)r.below(5) : 0);
}
void run12(const Plan& p) {
    AddWorld w(p);
    w.start();
    w.run();
    w.finish();
    noThrow("after close", [&] { w.leftovers(); });
    if (w.disk && p.get("crashes")) {
        sim::Rng rng(sim::mix(p.seed, 77));
        w.crashChecks((int)p.get("crashes"), rng, true);
    }
    w.policy.reset();
    w.closeAll();
    if (sim::openFds() || sim::openMaps()) {
        sim::violation("leaked-handle", "open after everything was closed: " + sim::describeOpenFds());
    }
}
RegisterProp reg12("C12", gen12, run12, addOpName);
}
