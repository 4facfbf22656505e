// C08: threads that change the same documents through one writer; every reader and every commit must show the
// state after some linearisation of all operations, one for all of them.
#include "world.h"
#include <algorithm>
#include <set>
#include <string>
#include <unordered_set>

using namespace Lucene;
using namespace lu;

namespace {
enum SOp { S_ADD = 1, S_UPD, S_DEL, S_DELMULTI, S_DELQ, S_DELQMULTI, S_DELQALL, S_DELALL, S_COMMIT, S_GETREADER, S_REOPEN, S_OPEN, S_OPTIMIZE, S_EXPUNGE, S_MAYBEMERGE, S_SLEEP, S_WAIT };
const char* sharedOpName(int k) {
    switch (k) {
    case S_ADD: return "add";
    case S_UPD: return "update";
    case S_DEL: return "delete";
    case S_DELMULTI: return "delete-terms";
    case S_DELQ: return "delete-query";
    case S_DELQMULTI: return "delete-queries";
    case S_DELQALL: return "delete-matching-all";
    case S_DELALL: return "delete-all";
    case S_COMMIT: return "commit";
    case S_GETREADER: return "get-reader";
    case S_REOPEN: return "reopen";
    case S_OPEN: return "open";
    case S_OPTIMIZE: return "optimize";
    case S_EXPUNGE: return "expunge-deletes";
    case S_MAYBEMERGE: return "maybe-merge";
    case S_SLEEP: return "sleep";
    case S_WAIT: return "wait-for-merges";
    }
    return "?";
}
typedef std::vector<std::vector<int>> State;   // per key: the versions that are there, ascending
const uint64_t FOREVER = ~0ULL;

struct HEntry {
    int th = 0, kind = 0;
    uint64_t inv = 0, done = FOREVER;
    int mask = 0;        // keys it removes
    int key = -1;        // key it adds to
    int val = 0;
    bool read = false;   // must show `snap`
    State snap;
    std::string what;
};
std::string stateText(const State& s) {
    std::string t;
    for (size_t k = 0; k < s.size(); ++k) {
        t += (k ? " k" : "k") + std::to_string(k) + "={";
        for (size_t i = 0; i < s[k].size(); ++i) {
            t += (i ? "," : "") + std::to_string(s[k][i]);
        }
        t += "}";
    }
    return t;
}
void apply(State& s, const HEntry& e) {
    for (size_t k = 0; k < s.size(); ++k) {
        if (e.mask >> k & 1) {
            s[k].clear();
        }
    }
    if (e.key >= 0) {
        std::vector<int>& v = s[(size_t)e.key];
        v.insert(std::lower_bound(v.begin(), v.end(), e.val), e.val);
    }
}

// Is there one order of all operations, consistent with real time, in which every read shows the state at its place?
class Checker {
public:
    // 1 yes, 0 no, -1 gave up
    static int check(const std::vector<std::vector<HEntry>>& byThread, int keys, uint64_t readsUntil, uint64_t* nodes) {
        std::vector<std::vector<const HEntry*>> h(byThread.size());
        for (size_t t = 0; t < byThread.size(); ++t) {
            for (const HEntry& e : byThread[t]) {
                if (e.read ? e.done <= readsUntil : (e.mask || e.key >= 0)) {
                    h[t].push_back(&e);
                }
            }
        }
        struct Node {
            std::vector<int> pos;
            State st;
        };
        std::vector<Node> stack;
        Node n0;
        n0.pos.assign(h.size(), 0);
        n0.st.resize((size_t)keys);
        stack.push_back(n0);
        std::unordered_set<std::string> seen;
        uint64_t n = 0;
        while (!stack.empty()) {
            Node cur = stack.back();
            stack.pop_back();
            // reads that match are taken at once: they change nothing
            bool again = true, all = false;
            while (again) {
                again = false;
                uint64_t bound = FOREVER;
                all = true;
                for (size_t t = 0; t < h.size(); ++t) {
                    if ((size_t)cur.pos[t] < h[t].size()) {
                        all = false;
                        bound = std::min(bound, h[t][(size_t)cur.pos[t]]->done);
                    }
                }
                for (size_t t = 0; t < h.size() && !again; ++t) {
                    if ((size_t)cur.pos[t] < h[t].size()) {
                        const HEntry* e = h[t][(size_t)cur.pos[t]];
                        if (e->read && e->inv <= bound && e->snap == cur.st) {
                            ++cur.pos[t];
                            again = true;
                        }
                    }
                }
                if (!again && !all) {
                    for (size_t t = 0; t < h.size(); ++t) {
                        if ((size_t)cur.pos[t] < h[t].size()) {
                            const HEntry* e = h[t][(size_t)cur.pos[t]];
                            if (!e->read && e->inv <= bound) {
                                Node nx = cur;
                                ++nx.pos[t];
                                apply(nx.st, *e);
                                std::string key;
                                for (int x : nx.pos) {
                                    key += std::to_string(x) + ",";
                                }
                                key += stateText(nx.st);
                                if (seen.insert(key).second) {
                                    stack.push_back(nx);
                                }
                            }
                        }
                    }
                }
            }
            if (all) {
                *nodes += n;
                return 1;
            }
            if (++n > 60000) {
                *nodes += n;
                return -1;
            }
        }
        *nodes += n;
        return 0;
    }
};

class SharedWorld {
public:
    const Plan& p;
    World w;
    int keys, nth;
    std::vector<std::vector<HEntry>> h;
    std::map<int, std::pair<int, size_t>> tags; // commit tag -> entry
    std::map<int, std::pair<uint64_t, uint64_t>> times;  // version -> when it was added
    int nextTag, nextVal;
    uint64_t ev;
    size_t reads;
    bool deletesAll;
    uint64_t startSeq;

    explicit SharedWorld(const Plan& plan) : p(plan), w(plan), keys((int)plan.get("keys", 2)), nth((int)plan.get("threads", 2)), h((size_t)nth + 1), nextTag(1), nextVal(1), ev(0), reads(0), deletesAll(false), startSeq(0) {
        for (const Op& op : p.ops) {
            deletesAll = deletesAll || op.kind == S_DELALL;
        }
    }

    String keyText(int k) {
        return L"key" + wide(std::to_string(k));
    }
    TermPtr term(int k) {
        return newLucene<Term>(L"k", keyText(k));
    }
    DocumentPtr doc(int k, int v) {
        DocumentPtr d = newLucene<Document>();
        d->add(newLucene<Field>(L"k", keyText(k), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        d->add(newLucene<Field>(L"v", L"v" + wide(std::to_string(v)), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
        if (v % 3 == 0) {
            String t;
            for (int i = 0; i < v % 40; ++i) {
                t += L"w" + wide(std::to_string((v * 7 + i) % 50)) + L" ";
            }
            d->add(newLucene<Field>(L"t", t, Field::STORE_YES, Field::INDEX_ANALYZED, v % 2 ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : Field::TERM_VECTOR_NO));
        }
        return d;
    }
    uint64_t now() {
        return ++ev;
    }
    // everything the reader shows, checked on its own
    State read(const IndexReaderPtr& r, const std::string& c) {
        sim::NoPreempt calm;
        State s((size_t)keys);
        int n = 0;
        std::vector<int> order;
        std::map<int, int> docOf;
        for (int i = 0; i < r->maxDoc(); ++i) {
            if (r->isDeleted(i)) {
                continue;
            }
            ++n;
            DocumentPtr d = r->document(i);
            std::string k = narrow(d->get(L"k")), v = narrow(d->get(L"v"));
            if (k.size() != 4 || v.size() < 2) {
                sim::violation("garbled-document", c + ": document " + std::to_string(i) + " has key '" + k + "' and version '" + v + "'");
            }
            int kk = k[3] - '0', vv = std::stoi(v.substr(1));
            if (kk < 0 || kk >= keys || !times.count(vv)) {
                sim::violation("garbled-document", c + ": document " + std::to_string(i) + " has key '" + k + "' and version '" + v + "'");
            }
            if (docOf.count(vv)) {
                sim::violation("duplicate", c + ": version " + v + " of " + k + " is there twice");
            }
            docOf[vv] = i;
            s[(size_t)kk].push_back(vv);
            order.push_back(vv);
        }
        if (n != r->numDocs()) {
            sim::violation("counts", c + ": numDocs is " + std::to_string(r->numDocs()) + ", there are " + std::to_string(n));
        }
        for (int k = 0; k < keys; ++k) {
            std::vector<int>& x = s[(size_t)k];
            std::sort(x.begin(), x.end());
            TermDocsPtr td = r->termDocs(term(k));
            std::vector<int> y;
            while (td->next()) {
                y.push_back(td->doc());
            }
            td->close();
            std::vector<int> want;
            for (int v : x) {
                want.push_back(docOf[v]);
            }
            std::sort(want.begin(), want.end());
            if (y != want) {
                sim::violation("postings", c + ": the postings of key" + std::to_string(k) + " give " + std::to_string(y.size()) + " documents, the stored fields " + std::to_string(want.size()));
            }
        }
        // documents are in the order they were added
        uint64_t lateInv = 0;
        int late = 0;
        for (int v : order) {
            if (times[v].second < lateInv) {
                sim::violation("order", c + ": version " + std::to_string(v) + " stands behind version " + std::to_string(late) + ", whose addition began after it had ended");
            }
            if (times[v].first > lateInv) {
                lateInv = times[v].first;
                late = v;
            }
        }
        sim::stat("reads_recorded");
        return s;
    }
    int tagOf(const IndexReaderPtr& r) {
        MapStringString m = r->getCommitUserData();
        return m && m.contains(L"tag") ? std::stoi(narrow(m.get(L"tag"))) : 0;
    }
    // the content of a commit
    void committed(const IndexReaderPtr& r, const std::string& c, uint64_t at) {
        State s = read(r, c);
        int tag = tagOf(r);
        if (tag == 0) {
            if (s != State((size_t)keys)) {
                sim::violation("commit-content", c + ": the commit that created the index shows " + stateText(s));
            }
            return;
        }
        if (!tags.count(tag)) {
            sim::violation("commit-content", c + ": unknown user data " + std::to_string(tag));
        }
        HEntry& e = h[(size_t)tags[tag].first][tags[tag].second];
        if (e.read && e.snap != s) {
            sim::violation("commit-content", c + ": commit " + std::to_string(tag) + " shows " + stateText(s) + ", it showed " + stateText(e.snap));
        }
        if (!e.read) {
            ++reads;
        }
        e.read = true;
        e.snap = s;
        e.what = "commit " + std::to_string(tag);
        (void)at;
    }
    void exec(int t, const Op& op, IndexReaderPtr& mine) {
        sim::progress();
        sim::event(sharedOpName(op.kind), op.a, op.b);
        std::vector<HEntry>& my = h[(size_t)t];
        HEntry e;
        e.th = t;
        e.kind = op.kind;
        int k = (int)((uint64_t)op.a % (uint64_t)keys);
        int all = (1 << keys) - 1;
        IndexWriterPtr iw = w.w;
        size_t at = my.size();
        auto begin = [&] {
            if (e.key >= 0) {
                e.val = nextVal++;
            }
            e.inv = now();
            if (e.key >= 0) {
                times[e.val] = std::make_pair(e.inv, FOREVER);
            }
            my.push_back(e);
            if (sim::g_verbose) {
                sim::logf("t%d %s mask %d key %d v%d inv %llu", t, sharedOpName(op.kind), e.mask, e.key, e.val, (unsigned long long)e.inv);
            }
        };
        auto end = [&] {
            my[at].done = now();
            if (e.key >= 0) {
                times[e.val].second = my[at].done;
            }
            sim::stat("operations");
            if (sim::g_verbose) {
                sim::logf("t%d %s done %llu", t, sharedOpName(op.kind), (unsigned long long)my[at].done);
            }
        };
        auto record = [&](const IndexReaderPtr& r, const char* what) {
            end();
            State s = read(r, what);
            my[at].read = true;
            my[at].snap = s;
            my[at].what = what;
            ++reads;
        };
        try {
        switch (op.kind) {
        case S_ADD:
            e.key = k;
            begin();
            iw->addDocument(doc(k, e.val));
            end();
            break;
        case S_UPD:
            e.key = k;
            e.mask = 1 << k;
            begin();
            iw->updateDocument(term(k), doc(k, e.val));
            end();
            break;
        case S_DEL:
            e.mask = 1 << k;
            begin();
            iw->deleteDocuments(term(k));
            end();
            break;
        case S_DELQ:
            e.mask = 1 << k;
            begin();
            iw->deleteDocuments(newLucene<TermQuery>(term(k)));
            end();
            break;
        case S_DELMULTI: {
            e.mask = 1 + (int)((uint64_t)op.b % (uint64_t)all);
            begin();
            Collection<TermPtr> c = Collection<TermPtr>::newInstance();
            for (int i = 0; i < keys; ++i) {
                if (e.mask >> i & 1) {
                    c.add(term(i));
                }
            }
            iw->deleteDocuments(c);
            end();
            break;
        }
        case S_DELQMULTI: {
            e.mask = 1 + (int)((uint64_t)op.b % (uint64_t)all);
            begin();
            Collection<QueryPtr> c = Collection<QueryPtr>::newInstance();
            for (int i = keys - 1; i >= 0; --i) {
                if (e.mask >> i & 1) {
                    c.add(newLucene<TermQuery>(term(i)));
                }
            }
            iw->deleteDocuments(c);
            end();
            break;
        }
        case S_DELQALL:
            e.mask = all;
            begin();
            if (op.b & 1) {
                iw->deleteDocuments(newLucene<MatchAllDocsQuery>());
            } else {
                iw->deleteDocuments(newLucene<PrefixQuery>(newLucene<Term>(L"k", L"key")));
            }
            end();
            break;
        case S_DELALL:
            e.mask = all;
            begin();
            iw->deleteAll();
            end();
            break;
        case S_COMMIT: {
            int tag = nextTag++;
            begin();
            tags[tag] = std::make_pair(t, at);
            iw->commit(tagMap(tag));
            end();
            break;
        }
        case S_GETREADER: {
            begin();
            IndexReaderPtr r = iw->getReader();
            record(r, "a near-real-time reader");
            if (mine) {
                mine->close();
            }
            mine = r;
            break;
        }
        case S_REOPEN: {
            if (!mine) {
                break;
            }
            begin();
            IndexReaderPtr r = mine->reopen();
            record(r, "a reopened near-real-time reader");
            if (r != mine) {
                mine->close();
                mine = r;
            }
            break;
        }
        case S_OPEN: {
            IndexReaderPtr r = IndexReader::open(w.dir, true);
            committed(r, "an opened reader", now());
            r->close();
            break;
        }
        case S_OPTIMIZE:
            iw->optimize((op.b & 1) != 0);
            break;
        case S_EXPUNGE:
            iw->expungeDeletes((op.b & 1) != 0);
            break;
        case S_MAYBEMERGE:
            iw->maybeMerge();
            break;
        case S_WAIT:
            iw->waitForMerges();
            break;
        case S_SLEEP:
            sim::sleepNs((int64_t)((uint64_t)op.a % 50000) * 1000);
            break;
        }
        } catch (LuceneException& x) {
            // deleteAll() aborts merges: whoever started or waits for one is told so, after what it did itself
            if (!deletesAll || !(x.getType() == LuceneException::MergeAborted || x.getError().find(L"background merge hit exception") != String::npos)) {
                throw;
            }
            if (my.size() > at && my[at].done == FOREVER) {
                end();
            }
            sim::stat("merges_aborted_by_delete_all");
        }
    }
    void body(int t) {
        IndexReaderPtr mine;
        noThrow("working", [&] {
            for (const Op& op : p.ops) {
                if (op.th == t) {
                    exec(t, op, mine);
                }
            }
            if (mine) {
                mine->close();
            }
        });
    }
    void judge() {
        uint64_t nodes = 0;
        int ok = Checker::check(h, keys, FOREVER - 1, &nodes);
        sim::stat("search_nodes", (int64_t)nodes);
        sim::stat(ok < 0 ? "histories_undecided" : "histories_linearised");
        if (ok != 0) {
            return;
        }
        // the first read that cannot be explained
        std::vector<uint64_t> ends;
        for (auto& v : h) {
            for (auto& e : v) {
                if (e.read) {
                    ends.push_back(e.done);
                }
            }
        }
        std::sort(ends.begin(), ends.end());
        for (uint64_t u : ends) {
            if (Checker::check(h, keys, u, &nodes) == 0) {
                for (auto& v : h) {
                    for (auto& e : v) {
                        if (e.read && e.done == u) {
                            std::string ops;
                            for (auto& v2 : h) {
                                for (auto& x : v2) {
                                    if (!x.read && (x.mask || x.key >= 0) && ops.size() < 1500) {
                                        ops += "; t" + std::to_string(x.th) + " " + sharedOpName(x.kind) + (x.key >= 0 ? " k" + std::to_string(x.key) + "=" + std::to_string(x.val) : " mask " + std::to_string(x.mask)) + " [" + std::to_string(x.inv) + "," + (x.done == FOREVER ? "-" : std::to_string(x.done)) + "]";
                                    }
                                }
                            }
                            sim::violation("not-linearizable", e.what + " [" + std::to_string(e.inv) + "," + std::to_string(e.done) + "] of thread " + std::to_string(e.th) + " shows " + stateText(e.snap) + ", which no order of the operations explains together with what was read before" + ops);
                        }
                    }
                }
            }
        }
        sim::violation("not-linearizable", "no order of the operations explains what the readers show");
    }
    void go() {
        w.start();
        startSeq = w.disk ? sim::diskSeq(w.disk) : 0;
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t] { body(t); }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        IndexReaderPtr none;
        noThrow("closing", [&] {
            exec(nth, Op{nth, S_GETREADER, 0, 0, 0}, none);
            none->close();
            none.reset();
            exec(nth, Op{nth, S_COMMIT, 0, 0, 0}, none);
            w.w->close(p.get("closewait", 1));
            w.w.reset();
            HEntry e;
            e.th = nth;
            e.inv = now();
            e.kind = S_OPEN;
            IndexReaderPtr r = IndexReader::open(w.dir, true);
            e.snap = read(r, "after close");
            e.read = true;
            e.what = "the closed index";
            e.done = now();
            h[(size_t)nth].push_back(e);
            committed(r, "after close", e.done);
            r->close();
            // power cuts: whatever commit is found shows what it shows
            sim::Rng g(sim::mix(p.seed, 91));
            for (int64_t i = 0; w.disk && i < p.get("crashes"); ++i) {
                std::vector<uint64_t> hot = sim::interestingSeqs(w.disk);
                uint64_t s = hot.empty() || g.below(4) == 0 ? g.below(sim::diskSeq(w.disk) + 1) : hot[g.below(hot.size())];
                s = std::max(s, startSeq);
                sim::CrashMode m;
                m.data = (int)g.below(3);
                sim::Disk* img = sim::crashImage(w.disk, s, m, g);
                std::string mm = "k" + std::to_string(i);
                sim::mount(mm, img, 100 + (int)i);
                DirectoryPtr d = w.openDir(mm, false);
                if (IndexReader::indexExists(d)) {
                    IndexReaderPtr c = IndexReader::open(d, true);
                    committed(c, "after a crash at disk operation " + std::to_string(s), 0);
                    c->close();
                    sim::stat("crash_images");
                }
                sim::unmount(mm);
                sim::freeDisk(img);
            }
        });
        judge();
        w.closeAll();
    }
};

void gen8(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(3) ? 0 : 1 + (int64_t)r.below(2));
    genSched(p, r, true);
    int nth = 2 + (int)r.below(3);
    p.set("keys", 1 + (int64_t)r.below(4));
    p.set("crashes", r.below(3) == 0 ? 1 + (int64_t)r.below(5) : 0);
    p.set("closewait", r.below(2));
    OpMix m;
    m.add(S_UPD, 30).add(S_ADD, 8).add(S_DEL, 8).add(S_DELMULTI, 4).add(S_DELQ, 4).add(S_DELQMULTI, 2).add(S_DELQALL, 2).add(S_DELALL, 1).add(S_COMMIT, 6).add(S_GETREADER, 10).add(S_REOPEN, 10).add(S_OPEN, 4).add(S_OPTIMIZE, 2).add(S_EXPUNGE, 2).add(S_MAYBEMERGE, 2).add(S_WAIT, 1).add(S_SLEEP, 3);
    genOps(p, r, m, nth, 4 + (int)r.below(tier && r.below(3) == 0 ? 40 : 16), 8);
}
void run8(const Plan& p) {
    SharedWorld s(p);
    s.go();
}
RegisterProp reg8("C08", gen8, run8, sharedOpName);
}
