// C11: closing and rolling back a writer that other threads are using.
#include "world.h"
#include "IndexFileNames.h"
#include <algorithm>
using namespace lu;
using namespace Lucene;

namespace {
enum COp { C_END = 100 };
const char* closeOpName(int k) {
    return k == C_END ? "end-of-round" : opName(k);
}

struct CloseWorld : World {
    std::vector<size_t> pos;           // next operation of each thread
    std::vector<int> lost;             // index of the operation that failed, -1: none
    bool rollbackTried = false, closing = false;
    int closesDone = 0, rollbacksDone = 0;
    Stamp lastClose;
    bool ownOnly = false;

    explicit CloseWorld(const Plan& p) : World(p), pos((size_t)nth), lost((size_t)nth, -1) {}

    bool nrtExcused() override { return rollbackTried; }
    void onError(int t, const Op& op, const LuceneException& e) override {
        // merges that are aborted are reported to whoever waits for them
        bool merge = e.getError().find(L"merge") != String::npos || e.getType() == LuceneException::MergeAborted;
        if (!closing || !(e.getType() == LuceneException::AlreadyClosed || merge)) {
            World::onError(t, op, e);
        }
        if (!hist[(size_t)t].empty() && hist[(size_t)t].back().failed) {
            lost[(size_t)t] = (int)hist[(size_t)t].size() - 1;
        }
        sim::stat(merge ? "aborted_merges_reported" : "operations_refused");
        done[(size_t)t] = true;
    }
    std::vector<bool> done;
    void work(int t) {
        while (pos[(size_t)t] < p.ops.size() && !done[(size_t)t]) {
            const Op& op = p.ops[pos[(size_t)t]++];
            if (op.th != t) {
                continue;
            }
            if (op.kind == C_END) {
                return;
            }
            exec(t, op);
        }
    }
    struct Closer {
        int how;
        int64_t delay;
    };
    size_t closeCommit = 0;
    void closeBy(const Closer& c) {
        sim::sleepNs(c.delay);
        closing = true;
        bool threw = false;
        std::string text;
        sim::event("close", c.how, 0);
        try {
            switch (c.how) {
            case 0: w->close(); break;
            case 1: w->close(false); break;
            case 2: rollbackTried = true; w->rollback(); break;
            default: w->waitForMerges(); break;
            }
        } catch (AlreadyClosedException& e) {
            threw = true;
            text = excText(e);
        } catch (LuceneException& e) {
            sim::violation("close-failed", std::string(c.how == 2 ? "rollback" : "close") + " fails: " + excText(e));
        }
        if (threw && c.how < 2) {
            sim::violation("close-failed", "close() fails: " + text);
        }
        if (c.how < 3 && !threw) {
            lastClose = stamp();
            sim::NoPreempt np;
            bool a = true;
            try {
                w->getMaxBufferedDocs();
                a = false;
            } catch (AlreadyClosedException&) {
            }
            if (!a) {
                sim::violation("still-open", "the writer is still open after close() or rollback() returned");
            }
            if (IndexWriter::isLocked(dir)) {
                sim::violation("still-locked", "the index is still locked after close() or rollback() returned");
            }
        }
        sim::stat(c.how == 0 ? "closes" : c.how == 1 ? "closes_without_waiting" : c.how == 2 ? "rollbacks" : "waits");
    }
    // a closed writer refuses everything
    void refusals(sim::Rng& g) {
        DocumentPtr d = makeDoc(newUid(0, 1));
        TermPtr term = newLucene<Term>(L"id", L"x");
        static const char* names[] = {"addDocument", "updateDocument", "deleteDocuments", "commit", "optimize", "getReader", "addIndexes", "getReader(1)", "prepareCommit", "rollback", "deleteAll", "expungeDeletes", "optimize(2)", "setMaxBufferedDocs", "deleteDocuments(query)", "hasDeletions", "ramSizeInBytes", "numRamDocs"};
        for (int i = 0; i < 18; ++i) {
            if (g.below(3)) {
                continue;
            }
            bool refused = false;
            try {
                switch (i) {
                case 0: w->addDocument(d); break;
                case 1: w->updateDocument(term, d); break;
                case 2: w->deleteDocuments(term); break;
                case 3: w->commit(); break;
                case 4: w->optimize(); break;
                case 5: w->getReader(); break;
                case 6: w->addIndexesNoOptimize(newCollection<DirectoryPtr>(newLucene<RAMDirectory>())); break;
                case 7: w->getReader(1); break;
                case 8: w->prepareCommit(); break;
                case 9: w->rollback(); break;
                case 10: w->deleteAll(); break;
                case 11: w->expungeDeletes(); break;
                case 12: w->optimize(2, false); break;
                case 13: w->setMaxBufferedDocs(10); break;
                case 14: w->deleteDocuments(boost::static_pointer_cast<Query>(newLucene<TermQuery>(term))); break;
                case 15: w->hasDeletions(); break;
                case 16: w->ramSizeInBytes(); break;
                default: w->numRamDocs(); break;
                }
            } catch (AlreadyClosedException&) {
                refused = true;
            } catch (LuceneException& e) {
                sim::violation("closed-writer", std::string(names[i]) + "() of a closed writer: " + excText(e));
            }
            if (!refused) {
                sim::violation("closed-writer", std::string(names[i]) + "() of a closed writer returns normally");
            }
        }
        noThrow("closing a closed writer", [&] { w->close(g.below(2)); });
    }
    void round(int n, sim::Rng& g, bool more) {
        done.assign((size_t)nth, false);
        lost.assign((size_t)nth, -1);
        rollbackTried = closing = false;
        std::vector<int> start = invokedNow();
        size_t firstCommit = commits.size();
        std::vector<Closer> cs;
        int kinds = (int)p.get("closers", 1);
        bool together = g.below(2); // one closes while another is closing
        bool onlyClose = true, anyClose = false;
        for (int i = 0; i < kinds; ++i) {
            Closer c;
            c.how = i == 0 ? (int)g.below(3) : (int)g.below(4);
            c.delay = (int64_t)g.below((uint64_t)p.get("closespan", 1000)) * 10000;
            if (together && i > 0) {
                c.delay = cs[0].delay + (int64_t)g.below(50) * 100;
            }
            onlyClose = onlyClose && c.how != 2;
            anyClose = anyClose || c.how < 2;
            cs.push_back(c);
        }
        if (anyClose) {
            closeCommit = beginCommit(0);
            inheritTags(closeCommit);
            for (int k = 0; k <= (int)p.ops.size(); ++k) {
                commits[closeCommit].also.insert(nextTag + k); // of whatever is committed until then
            }
        }
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t] { work(t); }));
        }
        std::vector<sim::Tid> cl;
        for (Closer& c : cs) {
            cl.push_back(sim::go([this, c] { closeBy(c); }));
        }
        for (sim::Tid t : cl) {
            sim::join(t);
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        uint64_t seq = disk ? sim::diskSeq(disk) : 0;
        sim::sleepNs(3000000000LL);
        for (int k = 0; sim::liveThreads() > 1 && k < 200; ++k) {
            sim::sleepNs(1000000000LL);
        }
        if (sim::liveThreads() > 1) {
            std::string m = std::to_string(sim::liveThreads() - 1) + " threads of a closed writer are still there\n";
            sim::describeThreads(m);
            sim::violation("works-on", m);
        }
        if (disk && sim::diskSeq(disk) != seq) {
            sim::violation("works-on", "a closed writer goes on changing the directory: " + sim::describeLog(disk, seq, sim::diskSeq(disk)));
        }
        refusals(g);
        sim::stat("rounds");
        // what is there now
        noThrow("after close", [&] {
            if (onlyClose) {
                endCommit(closeCommit, true);
            }
            Stamp b = stamp();
            IndexReaderPtr r = IndexReader::open(dir, true);
            Stamp e = stamp();
            Snapshot s = readState(r);
            std::string tag = tagOf(r);
            std::vector<int> lo((size_t)nth), hi = invokedNow();
            if (onlyClose) {
                for (int t = 0; t < nth; ++t) {
                    lo[(size_t)t] = lost[(size_t)t] >= 0 ? lost[(size_t)t] : hi[(size_t)t];
                }
                checkWindow(s.uids, lo, hi, "lost-at-close", "after close()");
            } else {
                // rolled back: what the last commit of anybody holds, or everything if a close() came first
                lo = start;
                for (size_t k = firstCommit; k < commits.size(); ++k) {
                    if (commits[k].acked) {
                        for (int t = 0; t < nth; ++t) {
                            lo[(size_t)t] = std::max(lo[(size_t)t], commits[k].lo[(size_t)t]);
                        }
                    }
                }
                checkWindow(s.uids, lo, hi, "lost-at-rollback", "after rollback()");
                if (!anyClose) {
                    rolledBack(s.uids, tag, firstCommit, start);
                }
            }
            verifyReader(r, s, verifyBits, hrng, "after close");
            r->close();
            leftovers();
            // go on from there
            ByThread v = split(s.uids, "after close");
            for (int t = 0; t < nth; ++t) {
                HOp h;
                h.kind = O_ROLLBACK;
                h.reset = true;
                h.to = v[(size_t)t];
                size_t i = beginOp(t, h);
                endOp(t, i, false);
            }
            for (size_t k = 0; k < held.size(); ++k) {
                recheckHeld(held[k]);
            }
            retireNrt();
            if (more) {
                w.reset();
                w = openWriter(dir, false);
                // makes the start of the round a commit of its own
                commits.clear();
                int tg = nextTag++;
                exec(0, Op{0, O_ADD, (int64_t)g.below(100), 7, 0});
                size_t c = beginCommit(tg);
                w->commit(tagMap(tg));
                endCommit(c, true);
            }
        });
    }
    // nothing that was not committed survives a rollback
    void rolledBack(const std::vector<uint64_t>& uids, const std::string& tag, size_t firstCommit, const std::vector<int>& start) {
        std::vector<int> klo((size_t)nth, 1 << 30), khi((size_t)nth, -1);
        bool any = false;
        for (size_t k = 0; k < commits.size(); ++k) {
            const CommitRec& c = commits[k];
            bool mine = (c.tag > 0 ? std::to_string(c.tag) : std::string()) == tag || c.also.count(tag.empty() ? 0 : std::stoi(tag));
            if (!mine) {
                continue;
            }
            any = true;
            for (int t = 0; t < nth; ++t) {
                klo[(size_t)t] = std::min(klo[(size_t)t], c.lo[(size_t)t]);
                khi[(size_t)t] = std::max(khi[(size_t)t], c.hi.empty() ? opsInvoked(t) : c.hi[(size_t)t]);
            }
        }
        if (!any) {
            sim::violation("lost-at-rollback", "after rollback() the index belongs to no commit [tag '" + tag + "']: " + seqStr(uids));
        }
        checkWindow(uids, klo, khi, "not-rolled-back", "after rollback() [tag '" + tag + "']");
    }
    void leftovers() {
        if (!disk) {
            return;
        }
        IndexReaderPtr r = IndexReader::open(dir, true);
        std::set<std::string> live;
        HashSet<String> fs = r->getIndexCommit()->getFileNames();
        for (HashSet<String>::iterator it = fs.begin(); it != fs.end(); ++it) {
            live.insert(narrow(*it));
        }
        r->close();
        for (const std::string& f : indexFiles(disk)) {
            if (!live.count(f) && f != "segments.gen" && f.find("lock") == std::string::npos) {
                sim::violation("orphan-file", "file " + f + " belongs to nothing after the writer was closed");
            }
        }
    }
};

void gen11(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(5) ? 1 + (int64_t)r.below(2) : 0);
    p.set("delpol", 0);
    genSched(p, r, true);
    int th = 1 + (int)r.below(4);
    p.set("closers", r.below(2) ? 1 : 2 + (int64_t)r.below(2));
    p.set("closespan", 1LL << r.below(16));
    if (r.below(4) == 0) {
        p.set("io.latency", 2000LL << r.below(12));
    }
    OpMix m;
    m.add(O_ADD, 24).add(O_UPD, 20).add(O_DELID, 6).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_DELTERMS, 2).add(O_COMMIT, 6).add(O_OPTIMIZE, 3).add(O_EXPUNGE, 2).add(O_MAYBEMERGE, 1).add(O_WAITMERGES, 1).add(O_GETREADER, 4).add(O_REOPENNRT, 3).add(O_ADDINDEXES, 2).add(O_ADDREADERS, 1).add(O_SLEEP, 2).add(O_HOLD, 1);
    int rounds = 1 + (int)r.below(3);
    p.set("rounds", rounds);
    std::vector<Op> all;
    for (int i = 0; i < rounds; ++i) {
        p.ops.clear();
        genOps(p, r, m, th, 3 + (int)r.below(tier ? 40 : 14), 2 + (int)r.below(8));
        all.insert(all.end(), p.ops.begin(), p.ops.end());
        for (int t = 0; t < th; ++t) {
            all.push_back(Op{t, C_END, 0, 0, 0});
        }
    }
    p.ops = all;
    p.set("v.bits", r.below(2) ? V_STORED : V_ALL);
}
void run11(const Plan& p) {
    CloseWorld w(p);
    if (p.get("io.latency")) {
        sim::setIoLatency(1000, p.get("io.latency"));
    }
    sim::Rng g(sim::mix(p.seed, 1111));
    w.start();
    int n = (int)p.get("rounds", 1);
    for (int i = 0; i < n; ++i) {
        w.round(i, g, i + 1 < n);
    }
    noThrow("closing readers", [&] {
        for (HeldPtr x : w.held) {
            w.recheckHeld(x);
            x->r->close();
        }
        w.held.clear();
        w.w.reset();
    });
    w.policy.reset();
    w.closeAll();
    if (sim::openFds() || sim::openMaps()) {
        sim::violation("leaked-handle", "open after everything was closed: " + sim::describeOpenFds());
    }
}
RegisterProp reg11("C11", gen11, run11, closeOpName);
}
