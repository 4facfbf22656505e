// C09: commits, deletion policies, snapshots and file clean-up.
#include "world.h"
#include "IndexCommit.h"
#include "IndexDeletionPolicy.h"
#include "SnapshotDeletionPolicy.h"
#include <algorithm>
#include <memory>
using namespace lu;
using namespace Lucene;

namespace {
enum KOp { K_LIST = 100, K_SNAP, K_RELEASE, K_REOPENAT, K_RDMOD, K_CRASHALL, K_BACKUP, K_HOLDOLD };
const char* commitOpName(int k) {
    static const char* n[] = {"list-commits", "snapshot", "release-snapshot", "reopen-at-commit", "modify-through-reader", "crash-all", "backup", "hold-old-reader"};
    return k >= 100 && k < 108 ? n[k - 100] : opName(k);
}

struct Kept {
    int64_t gen = 0, version = 0;
    std::string name;                 // segments_N
    std::vector<uint64_t> docs;
    std::set<int> tags;               // user data it may carry
    std::set<std::string> files;
    uint64_t born = 0;                // disk operations when it was finished
    uint64_t dead = UINT64_MAX;       // disk operations when its deletion was asked for
};
typedef std::shared_ptr<Kept> KeptPtr;

struct CommitWorld;
class ModelPolicy : public IndexDeletionPolicy {
public:
    explicit ModelPolicy(CommitWorld* w) : cw(w) {}
    virtual ~ModelPolicy() {}
    LUCENE_CLASS(ModelPolicy);
    virtual void onInit(Collection<IndexCommitPtr> commits);
    virtual void onCommit(Collection<IndexCommitPtr> commits);
    CommitWorld* cw;
};

struct CommitWorld : World {
    std::map<int64_t, KeptPtr> kept, all;
    SnapshotDeletionPolicyPtr snap;
    KeptPtr snapOf;                    // the snapshot held
    IndexCommitPtr snapCommit;
    int64_t lastGen = 0, lastVersion = 0;
    int mode, keepN;
    bool callbacks = false;            // a policy call is expected
    int calls = 0;
    sim::Rng prng;
    bool readerCommit = false;
    std::vector<std::pair<IndexReaderPtr, std::pair<KeptPtr, uint64_t>>> old;
    int copies = 0;
    bool backupRunning = false;

    explicit CommitWorld(const Plan& p) : World(p), mode((int)p.get("pol")), keepN((int)p.get("keepn", 2)), prng(sim::mix(p.seed, 1234)) {
        policy = newLucene<ModelPolicy>(this);
        if (p.get("snap", 1)) {
            snap = newLucene<SnapshotDeletionPolicy>(policy);
            policy = snap;
        }
        extraOp = [this](int t, const Op& op) { extra(t, op); };
        afterOp = [this] { checkFiles(); };
    }
    static int tagIn(const MapStringString& m) {
        if (!m || !m.contains(L"tag")) {
            return 0;
        }
        return std::stoi(narrow(m.get(L"tag")));
    }
    std::string genList(const std::map<int64_t, KeptPtr>& m) {
        std::string s;
        for (auto& x : m) {
            s += " " + x.second->name;
        }
        return s;
    }
    // the policy was called
    void called(Collection<IndexCommitPtr>& c, bool init) {
        ++calls;
        sim::event(init ? "policy-init" : "policy-commit", c.size(), 0);
        std::vector<int64_t> got;
        std::string text;
        for (int i = 0; i < c.size(); ++i) {
            got.push_back(c[i]->getGeneration());
            text += " " + narrow(c[i]->getSegmentsFileName());
            if (c[i]->isDeleted()) {
                sim::violation("policy-call", "the deletion policy is given a commit that is deleted already:" + text);
            }
            if (i && c[i]->getVersion() <= c[i - 1]->getVersion()) {
                sim::violation("policy-call", "the deletion policy is given commits out of order:" + text);
            }
        }
        std::vector<int64_t> want;
        for (auto& x : kept) {
            want.push_back(x.first);
        }
        if (!init) {
            if (got.empty()) {
                sim::violation("policy-call", "onCommit without a commit");
            }
            int64_t g = got.back();
            if (g <= lastGen) {
                sim::violation("policy-call", "onCommit is not given a new commit:" + text + "; earlier commits went up to generation " + std::to_string(lastGen));
            }
            want.push_back(g);
        }
        if (init && commits.size() == 1 && kept.empty() && !commits[0].acked) {
            // the writer creates the index
        } else if (got != want) {
            sim::violation("policy-call", std::string(init ? "onInit" : "onCommit") + " is given the commits" + text + "; there are" + genList(kept) + (init ? "" : " and a new one"));
        }
        for (int i = 0; i < c.size(); ++i) {
            auto it = kept.find(got[(size_t)i]);
            if (it == kept.end()) {
                KeptPtr k = std::make_shared<Kept>();
                k->gen = got[(size_t)i];
                k->version = c[i]->getVersion();
                k->name = narrow(c[i]->getSegmentsFileName());
                const CommitRec& r = commits.back();
                k->docs = readerCommit ? readerDocs : stateAt(0, r.hi.empty() ? opsInvoked(0) : r.hi[0]);
                int tag = tagIn(c[i]->getUserData());
                if (finishing && (tag == r.tag || (all.count(lastGen) && all[lastGen]->tags.count(tag)))) {
                    // commit(tag) without changes is none; close() then commits merges that have finished meanwhile
                } else if (r.tag > 0 ? tag != r.tag : tag && !r.also.count(tag) && !(rebase && rebase->tags.count(tag))) {
                    sim::violation("policy-call", "the new commit " + k->name + " has the user data " + std::to_string(tag) + ", committed was " + std::to_string(r.tag));
                }
                k->tags.clear();
                k->tags.insert(tag);
                k->born = disk ? sim::diskSeq(disk) : 0;
                if (k->version <= lastVersion) {
                    sim::violation("policy-call", "a new commit has an old version");
                }
                HashSet<String> fs = c[i]->getFileNames();
                for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) {
                    k->files.insert(narrow(*f));
                }
                kept[k->gen] = k;
                all[k->gen] = k;
                lastGen = k->gen;
                lastVersion = k->version;
                sim::stat("commits_kept");
            } else {
                const Kept& k = *it->second;
                std::set<std::string> fs2;
                HashSet<String> fs = c[i]->getFileNames();
                for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) {
                    fs2.insert(narrow(*f));
                }
                std::string what = fs2 != k.files ? "files" : k.version != c[i]->getVersion() ? "version" : k.name != narrow(c[i]->getSegmentsFileName()) ? "name" : "user data " + std::to_string(tagIn(c[i]->getUserData()));
                if (fs2 != k.files || k.version != c[i]->getVersion() || k.name != narrow(c[i]->getSegmentsFileName()) || !k.tags.count(tagIn(c[i]->getUserData()))) {
                    sim::violation("policy-call", "the commit " + k.name + " has changed: " + what + " differs");
                }
            }
        }
        // decide
        std::vector<int> del;
        int n = (int)c.size();
        for (int i = 0; i + 1 < n; ++i) {
            bool d = mode == 0 ? true : mode == 1 ? false : mode == 2 ? i < n - keepN : prng.below(3) == 0;
            if (d) {
                del.push_back(i);
            }
        }
        if (p.get("delrev")) {
            std::reverse(del.begin(), del.end());
        }
        for (int i : del) {
            int64_t g = c[i]->getGeneration();
            bool held = snapOf && snapOf->gen == g;
            c[i]->deleteCommit();
            if (p.get("deltwice")) {
                c[i]->deleteCommit();
            }
            if (c[i]->isDeleted() == held) {
                sim::violation("policy-call", held ? "the commit of the snapshot was deleted" : "isDeleted() is false after deleteCommit()");
            }
            if (!held) {
                kept[g]->dead = disk ? sim::diskSeq(disk) : 0;
                kept.erase(g);
                sim::stat("commits_deleted");
            } else {
                sim::stat("deletions_of_the_snapshot_refused");
            }
        }
    }
    std::vector<uint64_t> readerDocs;
    std::function<void()> afterOp;

    std::set<std::string> dirFiles() {
        HashSet<String> l = dir->listAll();
        std::set<std::string> s;
        for (HashSet<String>::iterator f = l.begin(); f != l.end(); ++f) {
            s.insert(narrow(*f));
        }
        return s;
    }
    // every file of every kept commit is there; when nothing is open nothing else is
    void checkFiles(bool exactly = false) {
        std::set<std::string> have;
        noThrow("listing the directory", [&] { have = dirFiles(); });
        std::set<std::string> need;
        for (auto& k : kept) {
            need.insert(k.second->files.begin(), k.second->files.end());
            for (const std::string& f : k.second->files) {
                if (!have.count(f)) {
                    sim::violation("file-lost", "file " + f + " of the commit " + k.second->name + ", which the deletion policy keeps, is gone");
                }
            }
        }
        if (exactly) {
            for (const std::string& f : have) {
                if (!need.count(f) && f != "segments.gen" && f.find("lock") == std::string::npos) {
                    sim::violation("file-left", "file " + f + " belongs to no commit that is kept (" + genList(kept) + " )");
                }
            }
        }
        sim::stat("file_checks");
    }
    void checkReader(const IndexReaderPtr& r, const Kept& k, const std::string& c, int bits) {
        Snapshot s = readState(r);
        expectSeq(s.uids, k.docs, "commit-content", c);
        int tag = tagIn(r->getCommitUserData());
        if (!k.tags.count(tag)) {
            sim::violation("commit-content", c + ": its user data is that of another commit: " + std::to_string(tag));
        }
        if (r->getVersion() != k.version) {
            sim::violation("commit-content", c + ": its version is " + std::to_string(r->getVersion()) + ", it was " + std::to_string(k.version));
        }
        verifyReader(r, s, bits, hrng, c.c_str());
    }
    IndexCommitPtr findCommit(const DirectoryPtr& d, int64_t gen) {
        Collection<IndexCommitPtr> l = IndexReader::listCommits(d);
        for (int i = 0; i < l.size(); ++i) {
            if (l[i]->getGeneration() == gen) {
                return l[i];
            }
        }
        sim::violation("commit-list", "listCommits does not list the commit of generation " + std::to_string(gen));
    }
    void checkList(bool openAll) {
        Collection<IndexCommitPtr> l = IndexReader::listCommits(dir);
        std::sort(l.begin(), l.end(), [](const IndexCommitPtr& a, const IndexCommitPtr& b) { return a->getGeneration() < b->getGeneration(); });
        std::string text;
        bool same = (size_t)l.size() == kept.size();
        size_t i = 0;
        for (auto& k : kept) {
            same = same && l[(int)i]->getGeneration() == k.first && narrow(l[(int)i]->getSegmentsFileName()) == k.second->name;
            ++i;
        }
        for (int z = 0; z < l.size(); ++z) {
            text += " " + narrow(l[z]->getSegmentsFileName());
        }
        if (!same) {
            sim::violation("commit-list", "listCommits gives" + text + "; the deletion policy kept" + genList(kept));
        }
        i = 0;
        for (auto& k : kept) {
            if (openAll || hrng.below(3) == 0) {
                IndexReaderPtr r = IndexReader::open(l[(int)i], hrng.below(2) != 0);
                checkReader(r, *k.second, "commit " + k.second->name + " opened", verifyBits);
                if (!r->getIndexCommit()->equals(l[(int)i])) {
                    sim::violation("commit-list", "getIndexCommit() of a reader is not the commit it was opened on");
                }
                r->close();
                sim::stat("commits_opened");
            }
            ++i;
        }
    }
    void releaseOld(size_t i) {
        auto x = old[i];
        old.erase(old.begin() + (long)i);
        checkReader(x.first, *x.second.first, "a reader held on " + x.second.first->name, verifyBits);
        if (dumpReader(x.first) != x.second.second) {
            sim::violation("snapshot-changed", "a reader of an old commit shows something else than when it was opened");
        }
        x.first->close();
    }
    // copies the files of the snapshot while the index goes on changing
    void backup(uint64_t seed) {
        sim::Rng g(seed);
        noThrow("a backup", [&] {
            KeptPtr k;
            IndexCommitPtr c;
            {
                sim::NoPreempt np;
                if (snapOf) {
                    return; // one snapshot at a time
                }
                c = snap->snapshot();
                snapCommit = c;
                snapOf = all[c->getGeneration()];
                k = snapOf;
            }
            RAMDirectoryPtr to = newLucene<RAMDirectory>();
            DirectoryPtr from = c->getDirectory();
            HashSet<String> fs = c->getFileNames();
            std::set<std::string> names;
            for (HashSet<String>::iterator f = fs.begin(); f != fs.end(); ++f) {
                names.insert(narrow(*f));
            }
            if (names != k->files) {
                sim::violation("backup", "the snapshot names other files than the commit " + k->name);
            }
            for (const std::string& n : names) {
                IndexInputPtr in = from->openInput(wide(n));
                IndexOutputPtr out = to->createOutput(wide(n));
                int64_t left = in->length();
                ByteArray buf = ByteArray::newInstance(4096);
                while (left > 0) {
                    int m = (int)std::min<int64_t>(left, 1 + (int64_t)g.below(4096));
                    in->readBytes(buf.get(), 0, m);
                    out->writeBytes(buf.get(), m);
                    left -= m;
                    if (g.below(4) == 0) {
                        sim::sleepNs((int64_t)g.below(20) * 1000000);
                    }
                }
                out->close();
                in->close();
            }
            {
                sim::NoPreempt np;
                snap->release();
                snapOf.reset();
                snapCommit.reset();
            }
            IndexReaderPtr r = IndexReader::open(to, true);
            sim::Calm calm;
            checkReader(r, *k, "the backup of " + k->name, V_STORED | V_TERMS);
            r->close();
            sim::stat("backups");
        });
    }
    void extra(int t, const Op& op) {
        switch (op.kind) {
        case K_LIST:
            checkList(op.a % 4 == 0);
            break;
        case K_SNAP: {
            if (!snap || backupRunning) {
                break;
            }
            if (snapOf) {
                bool threw = false;
                try {
                    snap->snapshot();
                } catch (IllegalStateException&) {
                    threw = true;
                }
                if (!threw) {
                    sim::violation("snapshot", "a second snapshot was taken without releasing the first");
                }
                break;
            }
            snapCommit = snap->snapshot();
            if (snapCommit->getGeneration() != lastGen) {
                sim::violation("snapshot", "snapshot() gives generation " + std::to_string(snapCommit->getGeneration()) + ", the last commit is " + std::to_string(lastGen));
            }
            snapOf = all[lastGen];
            sim::stat("snapshots");
            break;
        }
        case K_RELEASE:
            if (!snap || !snapOf || backupRunning) {
                break;
            }
            if (kept.count(snapOf->gen) == 0) {
                sim::violation("snapshot", "the snapshot " + snapOf->name + " was deleted");
            }
            {
                IndexReaderPtr r = IndexReader::open(snapCommit, true);
                checkReader(r, *snapOf, "the snapshot " + snapOf->name, verifyBits);
                r->close();
            }
            snap->release();
            snapOf.reset();
            snapCommit.reset();
            sim::stat("snapshots_released");
            break;
        case K_REOPENAT: {
            if (prepared) {
                exec(t, Op{op.th, O_FINISH, 0, 0, 0});
            }
            if (op.b & 1) {
                exec(t, Op{op.th, O_COMMIT, 0, 0, 0});
            }
            size_t ci = beginCommit(0);
            inheritTags(ci);
            w->close();
            endCommit(ci, true);
            retireNrt();
            checkFiles(old.empty() && held.empty());
            auto it = kept.begin();
            std::advance(it, (long)((uint64_t)op.a % kept.size()));
            KeptPtr k = it->second;
            HOp h;
            h.kind = op.kind;
            h.reset = true;
            h.to = k->docs;
            size_t hi = beginOp(t, h);
            IndexCommitPtr c = findCommit(dir, k->gen);
            int before = calls;
            w = newLucene<IndexWriter>(dir, analyzer, policy, (int32_t)IndexWriter::MaxFieldLengthUNLIMITED, c);
            if (calls != before + 1) {
                sim::violation("policy-call", "opening a writer called the deletion policy " + std::to_string(calls - before) + " times");
            }
            configure(w);
            endOp(t, hi, false);
            // what is uncommitted now carries the user data of that commit
            rebase = k;
            sim::stat("writers_opened_at_a_commit");
            break;
        }
        case K_RDMOD: {
            if (prepared) {
                exec(t, Op{op.th, O_FINISH, 0, 0, 0});
            }
            size_t ci = beginCommit(0);
            inheritTags(ci);
            w->close();
            endCommit(ci, true);
            retireNrt();
            modify(t, op);
            w = openWriter(dir, false);
            break;
        }
        case K_HOLDOLD: {
            if (old.size() > 3) {
                releaseOld((size_t)op.a % old.size());
                break;
            }
            auto it = kept.begin();
            std::advance(it, (long)((uint64_t)op.a % kept.size()));
            IndexReaderPtr r = IndexReader::open(findCommit(dir, it->first), (op.b & 1) != 0);
            checkReader(r, *it->second, "commit " + it->second->name + " opened", verifyBits);
            old.push_back(std::make_pair(r, std::make_pair(it->second, dumpReader(r))));
            sim::stat("old_readers_held");
            break;
        }
        case K_CRASHALL:
            if (disk) {
                std::vector<uint64_t> hot = sim::interestingSeqs(disk);
                uint64_t s = hot.empty() || op.c % 3 == 0 ? sim::diskSeq(disk) : hot[hot.size() - 1 - (uint64_t)op.a % std::min<size_t>(hot.size(), 60)];
                crashAll(s, (int)(op.b % 3), (uint64_t)op.a * 31 + 7);
            }
            break;
        }
    }
    KeptPtr rebase;
    bool finishing = false;
    // deletions through a reader that uses the same policy
    void modify(int t, const Op& op) {
        sim::Rng g(sim::mix((uint64_t)op.a, (uint64_t)op.b));
        KeptPtr k = all[lastGen];
        int before = calls;
        IndexReaderPtr r = IndexReader::open(dir, policy, false);
        checkReader(r, *k, "a modifying reader", V_STORED);
        std::vector<uint64_t> docs = k->docs;
        for (int round = 0; round < 1 + (int)g.below(3); ++round) {
            if (docs.empty()) {
                break;
            }
            uint64_t victim = docs[g.below(docs.size())];
            r->deleteDocuments(newLucene<Term>(L"uid", L"u" + wide(std::to_string(victim))));
            docs.erase(std::find(docs.begin(), docs.end(), victim));
            HOp h;
            h.kind = op.kind;
            h.reset = true;
            h.to = docs;
            size_t hi = beginOp(t, h);
            endOp(t, hi, false);
            if (g.below(2)) {
                size_t ci = beginCommit(nextTag++);
                readerCommit = true;
                readerDocs = docs;
                int64_t g0 = lastGen;
                r->flush(tagMap(commits[ci].tag));
                readerCommit = false;
                endCommit(ci, true);
                if (lastGen == g0) {
                    sim::violation("policy-call", "a reader committed without calling the deletion policy it was given");
                }
            }
            if (g.below(3) == 0) {
                IndexReaderPtr n = boost::dynamic_pointer_cast<IndexReader>(g.below(2) ? r->clone(false) : r->clone());
                r->close();
                r = n;
                sim::stat("modifying_readers_cloned");
            } else if (g.below(3) == 0 && docs == all[lastGen]->docs) {
                IndexReaderPtr n = r->reopen();
                if (n != r) {
                    r->close();
                }
                r = n;
            }
        }
        size_t ci = beginCommit(0);
        inheritTags(ci);
        readerCommit = true;
        readerDocs = docs;
        r->close();
        readerCommit = false;
        endCommit(ci, true);
        if (all[lastGen]->docs != docs) {
            sim::violation("policy-call", "a reader committed without calling the deletion policy it was given (when it was closed); calls " + std::to_string(calls - before));
        }
        checkFiles();
        sim::stat("reader_modifications");
    }
    // after a crash every commit that was finished and not yet deleted is there
    void crashAll(uint64_t seq, int data, uint64_t seed) {
        sim::Rng rng(seed);
        sim::CrashMode m;
        m.data = data;
        sim::Disk* img = sim::crashImage(disk, seq, m, rng);
        std::string mm = "k" + std::to_string(mount_n++);
        sim::mount(mm, img, 100 + mount_n);
        std::string c = "after a crash at disk operation " + std::to_string(seq);
        noThrow(c, [&] {
            DirectoryPtr d = openDir(mm, false);
            int n = 0;
            for (auto& x : all) {
                const Kept& k = *x.second;
                if (k.born <= seq && k.dead >= seq) {
                    ++n;
                    IndexReaderPtr r = IndexReader::open(findCommit(d, k.gen), true);
                    checkReader(r, k, c + ": commit " + k.name, V_STORED);
                    r->close();
                }
            }
            sim::stat("commits_found_after_a_crash", n);
        });
        sim::unmount(mm);
        sim::freeDisk(img);
        sim::stat("crash_images");
    }
    void body(int t) override {
        for (const Op& op : p.ops) {
            if (op.th == t) {
                exec(t, op);
                checkFiles();
            }
        }
    }
    void goAll() {
        start();
        sim::Tid bt = -1;
        bool done = false;
        if (snap && p.get("backup")) {
            backupRunning = true;
            bt = sim::go([&] {
                sim::Rng g(sim::mix(p.seed, 321));
                for (int i = 0; i < 6 && !done; ++i) {
                    sim::sleepNs((int64_t)g.below(200) * 1000000);
                    backup(g.next());
                }
            });
        }
        run();
        done = true;
        if (bt >= 0) {
            sim::join(bt);
            backupRunning = false;
        }
        noThrow("releasing readers", [&] {
            while (!old.empty()) {
                releaseOld(old.size() - 1);
            }
            if (snapOf && p.get("snapend")) {
                exec(0, Op{0, K_RELEASE, 0, 0, 0});
            }
        });
        finishing = true;
        finish();
        finishing = false;
        // everything is closed: what is there is what the policy kept
        noThrow("after close", [&] {
            checkList(true);
            checkFiles(true);
            sim::Rng g(sim::mix(p.seed, 5));
            for (int64_t i = 0; disk && i < p.get("crashes"); ++i) {
                std::vector<uint64_t> hot = sim::interestingSeqs(disk);
                crashAll(hot.empty() || g.below(4) == 0 ? g.below(sim::diskSeq(disk) + 1) : hot[g.below(hot.size())], (int)g.below(3), g.next());
            }
            // a new writer that is closed again changes nothing but what the policy decides
            w = openWriter(dir, false);
            w->close();
            w.reset();
            checkList(false);
            checkFiles(true);
        });
        closeAll();
    }
};
void ModelPolicy::onInit(Collection<IndexCommitPtr> c) { cw->called(c, true); }
void ModelPolicy::onCommit(Collection<IndexCommitPtr> c) { cw->called(c, false); }

void gen9(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(4) ? 1 + (int64_t)r.below(2) : 0);
    genSched(p, r, true);
    p.set("pol", (int64_t)r.below(4));
    p.set("keepn", 1 + (int64_t)r.below(4));
    p.set("snap", r.below(4) != 0);
    p.set("backup", (int64_t)r.below(2));
    p.set("snapend", (int64_t)r.below(2));
    p.set("delrev", (int64_t)r.below(2));
    p.set("deltwice", r.below(4) == 0);
    p.set("crashes", r.below(2) ? (int64_t)r.below(8) : 0);
    p.set("v.bits", r.below(2) ? V_STORED : V_ALL);
    OpMix m;
    m.add(O_ADD, 24).add(O_UPD, 16).add(O_DELID, 6).add(O_DELGRP, 2).add(O_COMMIT, 14).add(O_PREPARE, 2).add(O_FINISH, 2).add(O_ROLLBACK, 3).add(O_OPTIMIZE, 3).add(O_EXPUNGE, 2).add(O_MAYBEMERGE, 1).add(O_GETREADER, 2).add(O_CLOSEREOPEN, 3).add(O_ADDINDEXES, 1).add(O_DELALL, 1).add(O_SLEEP, 2);
    m.add(K_LIST, 5).add(K_SNAP, 3).add(K_RELEASE, 3).add(K_REOPENAT, 3).add(K_RDMOD, 2).add(K_CRASHALL, 2).add(K_HOLDOLD, 3);
    genOps(p, r, m, 1, 8 + (int)r.below(tier && r.below(3) == 0 ? 150 : 50), 2 + (int)r.below(8));
}
void run9(const Plan& p) {
    CommitWorld w(p);
    w.goAll();
}
RegisterProp reg9("C09", gen9, run9, commitOpName);
}
