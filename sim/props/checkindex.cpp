// C17: CheckIndex tells a damaged index from a sound one and repairs it; damaged files are refused, never misread.
#include "world.h"
#include "CheckIndex.h"
#include "SegmentInfos.h"
#include "SegmentInfo.h"
#include "SegmentReader.h"
#include "IndexCommit.h"
#include <algorithm>
#include <set>
using namespace lu;
using namespace Lucene;

namespace {
struct Seg {
    std::string name;
    std::vector<uint64_t> uids;
    int maxDoc = 0;
    std::set<std::string> files;
    bool lost = false; // a file that nothing needs may be missing
};
std::vector<uint64_t> docsOf(const std::vector<Seg>& segs) {
    std::vector<uint64_t> v;
    for (const Seg& s : segs) {
        v.insert(v.end(), s.uids.begin(), s.uids.end());
    }
    return v;
}
struct CheckWorld : World {
    std::vector<Seg> segs;
    std::vector<std::vector<uint64_t>> commitDocs; // content of every commit that is there
    int n = 0;

    explicit CheckWorld(const Plan& p) : World(p) {}

    std::vector<Seg> learn(const DirectoryPtr& d) {
        std::vector<Seg> v;
        SegmentInfosPtr si = newLucene<SegmentInfos>();
        si->read(d);
        IndexReaderPtr r = IndexReader::open(d, true);
        Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
        for (int i = 0; i < si->size(); ++i) {
            Seg s;
            s.name = narrow(si->info(i)->name);
            s.maxDoc = si->info(i)->docCount;
            HashSet<String> f = si->info(i)->files();
            for (HashSet<String>::iterator it = f.begin(); it != f.end(); ++it) {
                s.files.insert(narrow(*it));
            }
            s.uids = readState(subs[i]).uids;
            v.push_back(s);
        }
        r->close();
        return v;
    }
    IndexStatusPtr check(const DirectoryPtr& d, const std::string& c, Collection<String> only = Collection<String>()) {
        IndexStatusPtr st;
        try {
            CheckIndexPtr ci = newLucene<CheckIndex>(d);
            st = only ? ci->checkIndex(only) : ci->checkIndex();
        } catch (LuceneException& e) {
            sim::violation("check-throws", c + ": checkIndex throws " + excText(e));
        }
        return st;
    }
    // the report on a sound index
    void clean(const IndexStatusPtr& st, const std::vector<Seg>& want, const std::string& c) {
        if (!st->clean || st->missingSegments || st->cantOpenSegments || st->missingSegmentVersion || st->toolOutOfDate || st->numBadSegments || st->totLoseDocCount) {
            std::string bad;
            for (int i = 0; st->segmentInfos && i < st->segmentInfos.size(); ++i) {
                SegmentInfoStatusPtr s = st->segmentInfos[i];
                if (s->termIndexStatus && !s->termIndexStatus->error.isNull()) bad += " terms of " + narrow(s->name) + ": " + narrow(s->termIndexStatus->error.getError());
                if (s->storedFieldStatus && !s->storedFieldStatus->error.isNull()) bad += " stored fields of " + narrow(s->name) + ": " + narrow(s->storedFieldStatus->error.getError());
                if (s->termVectorStatus && !s->termVectorStatus->error.isNull()) bad += " vectors of " + narrow(s->name) + ": " + narrow(s->termVectorStatus->error.getError());
                if (s->fieldNormStatus && !s->fieldNormStatus->error.isNull()) bad += " norms of " + narrow(s->name) + ": " + narrow(s->fieldNormStatus->error.getError());
            }
            sim::violation("sound-index-refused", c + ": checkIndex reports a sound index as damaged: " + std::to_string(st->numBadSegments) + " bad segments" + (st->missingSegments ? ", no segments file" : "") + bad);
        }
        counts(st, want, c);
    }
    void counts(const IndexStatusPtr& st, const std::vector<Seg>& want, const std::string& c) {
        if (st->numSegments != (int)want.size() && !st->partial) {
            sim::violation("wrong-report", c + ": checkIndex reports " + std::to_string(st->numSegments) + " segments of " + std::to_string(want.size()));
        }
        if (st->segmentInfos.size() != (int)want.size()) {
            sim::violation("wrong-report", c + ": checkIndex reports on " + std::to_string(st->segmentInfos.size()) + " segments instead of " + std::to_string(want.size()));
        }
        for (int i = 0; i < st->segmentInfos.size(); ++i) {
            SegmentInfoStatusPtr s = st->segmentInfos[i];
            const Seg& g = want[(size_t)i];
            if (narrow(s->name) != g.name || s->docCount != g.maxDoc || (g.lost ? s->numFiles > (int)g.files.size() : s->numFiles != (int)g.files.size()) || !s->openReaderPassed || s->hasDeletions != (g.maxDoc != (int)g.uids.size()) || s->numDeleted != g.maxDoc - (int)g.uids.size() ||
                !s->storedFieldStatus || s->storedFieldStatus->docCount != (int)g.uids.size() || !s->termVectorStatus || s->termVectorStatus->docCount != (int)g.uids.size()) {
                if (s->hasDeletions != (g.maxDoc != (int)g.uids.size()) && s->numDeleted == g.maxDoc - (int)g.uids.size()) {
                    continue; // a deletions file without deletions
                }
                sim::violation("wrong-report", c + ": checkIndex reports on segment " + narrow(s->name) + ": " + std::to_string(s->docCount) + " documents, " + std::to_string(s->numDeleted) + " deleted, " + std::to_string(s->numFiles) + " files; it is segment " + g.name + " with " + std::to_string(g.maxDoc) + " documents, " + std::to_string(g.maxDoc - (int)g.uids.size()) + " deleted, " + std::to_string(g.files.size()) + " files");
            }
            int64_t terms = 0;
            std::set<std::pair<String, String>> seen;
            for (uint64_t u : g.uids) {
                for (auto& t : inverted(u).terms) {
                    terms += seen.insert(t.first).second;
                }
            }
            if (!s->termIndexStatus || s->termIndexStatus->termCount < terms) {
                sim::violation("wrong-report", c + ": checkIndex counted " + std::to_string(s->termIndexStatus ? s->termIndexStatus->termCount : -1) + " terms in segment " + g.name + ", its live documents have " + std::to_string(terms));
            }
        }
    }
    struct Copy {
        sim::Disk* d;
        std::string m;
        DirectoryPtr dir;
    };
    Copy mountDisk(sim::Disk* d) {
        Copy c;
        c.d = d;
        c.m = "k" + std::to_string(n++);
        sim::mount(c.m, c.d, proc);
        c.dir = openDir(c.m, false);
        return c;
    }
    void drop(Copy& c) {
        c.dir->close();
        c.dir.reset();
        sim::unmount(c.m);
        sim::freeDisk(c.d);
    }
    // everything the sound directory must pass
    void sound() {
        uint64_t before = disk ? sim::diskHash(disk) : 0;
        clean(check(dir, "sound index"), segs, "sound index");
        // some segments only
        Collection<String> only = Collection<String>::newInstance();
        std::vector<Seg> some;
        for (const Seg& s : segs) {
            if (hrng.below(2)) {
                only.add(wide(s.name));
                some.push_back(s);
            }
        }
        IndexStatusPtr st = check(dir, "some segments", only);
        if (!st->partial || st->segmentsChecked.size() != (int)some.size()) {
            sim::violation("wrong-report", "checkIndex of some segments does not report a partial check");
        }
        clean(st, some, "some segments");
        bool refused = false;
        try {
            newLucene<CheckIndex>(dir)->fixIndex(st);
        } catch (IllegalArgumentException&) {
            refused = true;
        }
        if (!refused) {
            sim::violation("partial-fix", "fixIndex accepts the report of a partial check");
        }
        if (disk && sim::diskHash(disk) != before) {
            sim::violation("check-writes", "checkIndex changed the directory");
        }
        if (IndexWriter::isLocked(dir)) {
            sim::violation("check-writes", "checkIndex left the write lock behind");
        }
        sim::stat("sound_indexes");
    }
    std::string hurt(sim::Disk* d, const std::string& f, sim::Rng& g) {
        std::string b;
        // TermVectorsReader takes a missing .tvx for a segment without vectors
        bool keep = f.size() > 4 && f.substr(f.size() - 4) == ".tvx";
        if ((!keep && g.below(3) == 0) || !sim::readFile(d, "idx/" + f, b) || b.empty()) {
            sim::removeFile(d, "idx/" + f);
            sim::stat("files_removed");
            return f + " removed";
        }
        size_t to = g.below(3) == 0 ? b.size() - 1 - (size_t)g.below(std::min<uint64_t>(b.size(), 12)) : g.below(4) == 0 ? 0 : (size_t)g.below(b.size());
        std::string t = f + " truncated from " + std::to_string(b.size()) + " to " + std::to_string(to);
        b.resize(to);
        sim::writeFile(d, "idx/" + f, b);
        sim::stat("files_truncated");
        return t;
    }
    // a reader over damaged files: what it returns is right, or it throws
    void readDamaged(const DirectoryPtr& d, const std::string& c) {
        IndexReaderPtr r;
        try {
            r = IndexReader::open(d, true);
        } catch (LuceneException&) {
            sim::stat("damaged_indexes_refused");
            return;
        }
        // the last commit, or an earlier one
        std::vector<std::vector<uint64_t>> could;
        try {
            for (const std::vector<uint64_t>& v : commitDocs) {
                if (r->numDocs() == (int)v.size()) {
                    could.push_back(v);
                }
            }
            if (could.empty()) {
                sim::violation("misread", c + ": a reader shows " + std::to_string(r->numDocs()) + " documents instead of " + std::to_string(docsOf(segs).size()));
            }
            size_t at = 0;
            for (int i = 0; i < r->maxDoc(); ++i) {
                if (r->isDeleted(i)) {
                    continue;
                }
                String u;
                try {
                    u = r->document(i)->get(L"uid");
                } catch (LuceneException&) {
                    sim::stat("damaged_documents_refused");
                    ++at;
                    continue;
                }
                std::vector<std::vector<uint64_t>> still;
                for (const std::vector<uint64_t>& v : could) {
                    if (u == L"u" + wide(std::to_string(v[at]))) {
                        still.push_back(v);
                    }
                }
                if (still.empty()) {
                    sim::violation("misread", c + ": document " + std::to_string(i) + " is read as '" + narrow(u) + "' instead of " + uidStr(could[0][at]));
                }
                could = still;
                ++at;
            }
            const std::vector<uint64_t>& all = could[0];
            TermDocsPtr td = r->termDocs();
            for (int i = 0; i < 10 && !all.empty(); ++i) {
                uint64_t u = all[hrng.below(all.size())];
                try {
                    td->seek(newLucene<Term>(L"uid", L"u" + wide(std::to_string(u))));
                    if (td->next()) {
                        String was = r->document(td->doc())->get(L"uid");
                        if (was != L"u" + wide(std::to_string(u))) {
                            sim::violation("misread", c + ": the postings of " + uidStr(u) + " lead to document '" + narrow(was) + "'");
                        }
                    }
                } catch (LuceneException&) {
                    sim::stat("damaged_postings_refused");
                }
            }
        } catch (LuceneException&) {
            sim::stat("damaged_indexes_refused");
        }
        try {
            r->close();
        } catch (LuceneException& e) {
            sim::violation("unexpected-exception", c + ": closing a reader: " + excText(e));
        }
    }
    // which of the segments the report keeps
    std::vector<bool> kept(const IndexStatusPtr& st, const std::string& c) {
        std::vector<bool> v(segs.size(), false);
        size_t at = 0;
        for (int i = 0; i < st->newSegments->size(); ++i) {
            std::string name = narrow(st->newSegments->info(i)->name);
            while (at < segs.size() && segs[at].name != name) {
                ++at;
            }
            if (at == segs.size()) {
                sim::violation("wrong-report", c + ": checkIndex would keep segment " + name + ", which the index does not have there");
            }
            v[at++] = true;
        }
        return v;
    }
    // the content after the repair: all documents of the segments that were kept
    void repaired(const DirectoryPtr& d, const std::vector<bool>& keep, const std::set<std::string>& damaged, const std::string& c) {
        noThrow(c + ": after fixIndex", [&] {
            std::vector<Seg> left;
            for (size_t i = 0; i < segs.size(); ++i) {
                if (keep[i]) {
                    left.push_back(segs[i]);
                    for (const std::string& f : segs[i].files) {
                        left.back().lost = left.back().lost || damaged.count(f);
                    }
                }
            }
            IndexReaderPtr r = IndexReader::open(d, true);
            Snapshot s = readState(r);
            expectSeq(s.uids, docsOf(left), "wrong-repair", c + ": after fixIndex");
            r->close();
            keptSegments(d, left, damaged, c + ": after fixIndex");
            clean(check(d, c + ": after fixIndex"), left, c + ": after fixIndex");
        });
    }
    // what CheckIndex keeps can be read
    void keptSegments(const DirectoryPtr& d, const std::vector<Seg>& left, const std::set<std::string>& damaged, const std::string& c) {
        noThrow(c + ": segments that checkIndex would keep", [&] {
            IndexReaderPtr r = IndexReader::open(d, true);
            Collection<IndexReaderPtr> subs = r->getSequentialSubReaders();
            for (size_t i = 0; i < left.size(); ++i) {
                bool whole = true;
                for (const std::string& f : left[i].files) {
                    whole = whole && !damaged.count(f);
                }
                Snapshot ss = readState(subs[(int)i]);
                verifyReader(subs[(int)i], ss, whole ? V_ALL : V_STORED | V_NORMS | V_VECTORS, hrng, c.c_str());
            }
            r->close();
        });
    }
    // a writer goes on from there, and removes what is of no use any more
    void continueFrom(Copy& k, const std::vector<bool>& keep, const std::set<std::string>& damaged, sim::Rng& g, const std::string& c) {
        bool whole = true;
        std::vector<uint64_t> want;
        for (size_t i = 0; i < segs.size(); ++i) {
            if (keep[i]) {
                want.insert(want.end(), segs[i].uids.begin(), segs[i].uids.end());
                for (const std::string& f : segs[i].files) {
                    whole = whole && !damaged.count(f);
                }
            }
        }
        if (!whole) {
            return; // what CheckIndex does not read may still be missing
        }
        noThrow(c + ": going on after fixIndex", [&] {
            IndexWriterPtr x = newLucene<IndexWriter>(k.dir, analyzer, false, IndexWriter::MaxFieldLengthUNLIMITED);
            configure(x);
            for (int i = (int)g.below(5); i >= 0; --i) {
                uint64_t u = newUid(0, g.below(8));
                x->addDocument(makeDoc(u));
                want.push_back(u);
            }
            if (g.below(2)) {
                x->optimize();
            }
            x->close();
            IndexReaderPtr r = IndexReader::open(k.dir, true);
            Snapshot s = readState(r);
            expectSeq(s.uids, want, "wrong-repair", c + ": going on after fixIndex");
            verifyReader(r, s, verifyBits, hrng, (c + ": going on after fixIndex").c_str());
            r->close();
            std::vector<Seg> now = learn(k.dir);
            clean(check(k.dir, c + ": going on after fixIndex"), now, c + ": going on after fixIndex");
        });
    }
    void damage(sim::Rng& g) {
        Copy k = mountDisk(sim::cloneDisk(disk));
        std::set<std::string> all, damaged;
        for (const Seg& s : segs) {
            all.insert(s.files.begin(), s.files.end());
        }
        std::vector<std::string> fs(all.begin(), all.end());
        std::string c;
        if (g.below(4) == 0) {
            // segments.gen is only a hint
            c = hurt(k.d, "segments.gen", g);
            clean(check(k.dir, c), segs, c);
        }
        for (int i = 1 + (int)g.below(3); i > 0 && !fs.empty(); --i) {
            std::string f = fs[g.below(fs.size())];
            if (g.below(2)) {
                // all kinds of files, however many there are of each
                std::set<std::string> exts;
                for (const std::string& x : fs) {
                    exts.insert(x.substr(x.rfind('.') + 1));
                }
                std::set<std::string>::iterator e = exts.begin();
                std::advance(e, (long)g.below(exts.size()));
                std::vector<std::string> those;
                for (const std::string& x : fs) {
                    if (x.substr(x.rfind('.') + 1) == *e) {
                        those.push_back(x);
                    }
                }
                f = those[g.below(those.size())];
            }
            if (damaged.insert(f).second) {
                c += (c.empty() ? "" : ", ") + hurt(k.d, f, g);
            }
        }
        if (sim::g_verbose) {
            sim::logf("damage: %s", c.c_str());
        }
        uint64_t before = sim::diskHash(k.d);
        IndexStatusPtr st = check(k.dir, c);
        if (sim::diskHash(k.d) != before) {
            sim::violation("check-writes", c + ": checkIndex changed the directory");
        }
        if (st->missingSegments || st->cantOpenSegments || st->missingSegmentVersion) {
            sim::violation("wrong-report", c + ": checkIndex cannot read the segments file, which is sound");
        }
        std::vector<bool> keep = kept(st, c);
        int bad = 0, lose = 0;
        for (size_t i = 0; i < segs.size(); ++i) {
            bool touched = false;
            for (const std::string& f : segs[i].files) {
                touched = touched || damaged.count(f);
            }
            if (!keep[i]) {
                ++bad;
                lose += (int)segs[i].uids.size();
                if (!touched) {
                    sim::violation("sound-segment-refused", c + ": checkIndex reports segment " + segs[i].name + " as damaged");
                }
            }
        }
        if (st->numBadSegments != bad || st->clean != (bad == 0)) {
            sim::violation("wrong-report", c + ": checkIndex reports " + std::to_string(st->numBadSegments) + " bad segments and would remove " + std::to_string(bad));
        }
        // deletions that cannot be read are counted as documents
        int most = lose;
        for (size_t i = 0; i < segs.size(); ++i) {
            if (!keep[i]) {
                most += segs[i].maxDoc - (int)segs[i].uids.size();
            }
        }
        if (st->totLoseDocCount < lose || st->totLoseDocCount > most) {
            sim::violation("wrong-report", c + ": checkIndex says " + std::to_string(st->totLoseDocCount) + " documents would be lost, they are " + std::to_string(lose));
        }
        sim::stat(bad ? "damage_found" : "damage_without_effect");
        readDamaged(k.dir, c);
        if (!bad) {
            keptSegments(k.dir, segs, damaged, c);
        }
        if (bad && g.below(4)) {
            repair(k, st, keep, damaged, g, c);
        }
        drop(k);
    }
    void repair(Copy& k, const IndexStatusPtr& st, const std::vector<bool>& keep, const std::set<std::string>& damaged, sim::Rng& g, const std::string& c) {
        bool faults = p.get("faults") && g.below(2);
        uint64_t from = sim::diskSeq(k.d);
        int before = sim::faultsFired();
        bool threw = false;
        std::string text;
        if (faults) {
            sim::enableFaults(true);
        }
        try {
            newLucene<CheckIndex>(k.dir)->fixIndex(st);
        } catch (LuceneException& e) {
            threw = true;
            text = excText(e);
        }
        if (faults) {
            sim::enableFaults(false);
        }
        if (threw && sim::faultsFired() == before) {
            sim::violation("unexpected-exception", c + ": fixIndex: " + text);
        }
        uint64_t to = sim::diskSeq(k.d);
        // a crash meanwhile leaves the old index or the new one
        for (int i = 0; i < 2; ++i) {
            sim::CrashMode m;
            m.data = (int)g.below(3);
            sim::Rng cr(g.next());
            uint64_t at = from + g.below(to - from + 1);
            Copy z = mountDisk(sim::crashImage(k.d, at, m, cr));
            std::string cc = c + ": after a crash of fixIndex";
            IndexStatusPtr now = check(z.dir, cc);
            if (now->missingSegments || now->cantOpenSegments || now->missingSegmentVersion) {
                sim::violation("torn-repair", cc + " the index has no segments file");
            }
            bool isNew = now->numSegments == st->newSegments->size();
            if (!isNew && now->numSegments != (int)segs.size()) {
                sim::violation("torn-repair", cc + " the index has " + std::to_string(now->numSegments) + " segments");
            }
            if (isNew) {
                repaired(z.dir, keep, damaged, cc);
            }
            if (!isNew && at == to && !threw) {
                sim::violation("torn-repair", cc + " that had returned the old segments are there");
            }
            sim::stat("crash_images");
            drop(z);
        }
        if (threw) {
            sim::stat("repairs_failed");
            IndexStatusPtr again = check(k.dir, c + ": after fixIndex failed");
            if (again->missingSegments || again->cantOpenSegments || again->missingSegmentVersion) {
                sim::violation("torn-repair", c + ": after fixIndex failed (" + text + ") the index has no segments file");
            }
            noThrow(c + ": fixIndex again", [&] {
                if (!again->clean) {
                    newLucene<CheckIndex>(k.dir)->fixIndex(again);
                }
            });
        }
        repaired(k.dir, keep, damaged, c);
        sim::stat("repairs");
        continueFrom(k, keep, damaged, g, c);
    }
    // the segments file itself is damaged: another commit is shown or nothing, never something else
    void damageSegments(sim::Rng& g) {
        Copy k = mountDisk(sim::cloneDisk(disk));
        SegmentInfosPtr si = newLucene<SegmentInfos>();
        si->read(dir);
        std::string c = hurt(k.d, narrow(si->getCurrentSegmentFileName()), g);
        if (g.below(3) == 0) {
            c += ", " + hurt(k.d, "segments.gen", g);
        }
        uint64_t before = sim::diskHash(k.d);
        IndexStatusPtr st = check(k.dir, c);
        std::vector<uint64_t> got;
        bool opened = false;
        try {
            IndexReaderPtr r = IndexReader::open(k.dir, true);
            got = readState(r).uids;
            opened = true;
            r->close();
        } catch (LuceneException&) {
        }
        if (opened) {
            bool known = false;
            for (const std::vector<uint64_t>& v : commitDocs) {
                known = known || v == got;
            }
            if (!known) {
                sim::violation("misread", c + ": a reader shows documents of no commit: " + seqStr(got));
            }
            if (commitDocs.size() == 1) {
                sim::violation("misread", c + ": the only commit is damaged and a reader opens it");
            }
            sim::stat("earlier_commits_shown");
        } else {
            sim::stat("damaged_segments_refused");
        }
        if (opened == (st->missingSegments || st->cantOpenSegments || st->missingSegmentVersion)) {
            sim::violation("wrong-report", c + ": checkIndex says that the segments file can" + (opened ? "not" : "") + " be read, a reader finds that it can" + (opened ? "" : "not"));
        }
        if (!opened) {
            bool threw = false;
            try {
                newLucene<IndexWriter>(k.dir, analyzer, false, IndexWriter::MaxFieldLengthUNLIMITED)->close();
            } catch (LuceneException&) {
                threw = true;
            }
            if (!threw) {
                sim::violation("misread", c + ": a writer opens an index that cannot be read");
            }
            if (IndexWriter::isLocked(k.dir)) {
                sim::violation("leaked-lock", c + ": a writer that could not be opened keeps the lock");
            }
        }
        if (!opened && sim::diskHash(k.d) != before) {
            // lock files come and go
            std::vector<std::string> a = indexFiles(disk), b = indexFiles(k.d);
            for (const std::string& f : a) {
                if (f.find("lock") == std::string::npos && f.find("segments") == std::string::npos && std::find(b.begin(), b.end(), f) == b.end()) {
                    sim::violation("misread", c + ": file " + f + " was deleted though the index cannot be read");
                }
            }
        }
        drop(k);
    }
    // reading fails while the check runs
    void failingReads() {
        Copy k = mountDisk(sim::cloneDisk(disk));
        int before = sim::faultsFired();
        sim::enableFaults(true);
        IndexStatusPtr st = check(k.dir, "failing reads");
        sim::enableFaults(false);
        bool fired = sim::faultsFired() != before;
        if (!fired) {
            clean(st, segs, "no failing read");
        } else if (!st->clean) {
            sim::stat("checks_that_failed");
        } else if (commitDocs.size() == 1) {
            counts(st, segs, "failing reads"); // with more of them an earlier commit may have been checked
        }
        clean(check(k.dir, "after failing reads"), segs, "after failing reads");
        drop(k);
    }
    // reading fails now and then while a reader is used: what it returns is right, or it throws; then all is well again
    void failingReader(sim::Rng& g) {
        Copy k = mountDisk(sim::cloneDisk(disk));
        IndexReaderPtr r, n;
        Snapshot s;
        noThrow("opening a reader", [&] {
            r = IndexReader::open(k.dir, true);
            s = readState(r);
            if (g.below(2)) {
                // nothing read yet
                r->close();
                r = IndexReader::open(k.dir, true);
            }
        });
        static const int bits[] = {V_STORED, V_TERMS, V_NORMS, V_VECTORS, V_QUERIES, V_TERMS | V_SEEK, V_ALL};
        for (int i = 2 + (int)g.below(10); i > 0; --i) {
            sim::progress();
            int before = sim::faultsFired();
            std::string text;
            sim::enableFaults(true);
            try {
                switch (g.below(6)) {
                case 0:
                    n = IndexReader::open(k.dir, true);
                    expectKnown(n, "a reader opened while reads fail");
                    n->close();
                    break;
                case 1:
                    lookups(r, s, g);
                    break;
                default:
                    verifyReader(r, s, bits[g.below(7)], hrng, "while reads fail");
                }
            } catch (LuceneException& e) {
                text = excText(e);
            }
            sim::enableFaults(false);
            if (!text.empty()) {
                if (sim::faultsFired() == before) {
                    sim::violation("unexpected-exception", "reading after a read had failed: " + text);
                }
                sim::stat("reads_failed_by_faults");
            }
            if (n && n->getRefCount() > 0) {
                noThrow("closing a reader", [&] { n->close(); });
            }
            n.reset();
        }
        noThrow("reading after reads failed", [&] {
            lookups(r, s, g);
            verifyReader(r, s, V_ALL, hrng, "after reads failed");
            r->close();
        });
        drop(k);
        sim::stat("readers_with_failing_reads");
    }
    void expectKnown(const IndexReaderPtr& r, const std::string& c) {
        std::vector<uint64_t> got = readState(r).uids;
        for (const std::vector<uint64_t>& v : commitDocs) {
            if (v == got) {
                return;
            }
        }
        sim::violation("misread", c + " shows documents of no commit: " + seqStr(got));
    }
    void lookups(const IndexReaderPtr& r, const Snapshot& s, sim::Rng& g) {
        TermDocsPtr td = r->termDocs();
        for (int i = 3 + (int)g.below(20); i > 0 && !s.uids.empty(); --i) {
            size_t at = g.below(s.uids.size());
            TermPtr t = newLucene<Term>(L"uid", L"u" + wide(std::to_string(s.uids[at])));
            try {
                if (g.below(3) == 0) {
                    if (r->docFreq(t) < 1) {
                        sim::violation("misread", "docFreq of " + uidStr(s.uids[at]) + " is 0");
                    }
                    continue;
                }
                td->seek(t);
                if (!td->next() || td->doc() != s.docs[at]) {
                    sim::violation("misread", "the postings of " + uidStr(s.uids[at]) + " are wrong");
                }
            } catch (IOException&) {
                sim::stat("lookups_failed_by_faults");
                td = r->termDocs();
            }
        }
    }
    void images(int m, sim::Rng& g) {
        for (int i = 0; i < m; ++i) {
            sim::CrashMode mode;
            mode.data = (int)g.below(3);
            sim::Rng cr(g.next());
            uint64_t at = g.below(sim::diskSeq(disk) + 1);
            bool first = commits.empty() || !commits[0].acked || commits[0].done.log > at;
            if (first) {
                continue;
            }
            Copy k = mountDisk(sim::crashImage(disk, at, mode, cr));
            std::string c = "after a crash at disk operation " + std::to_string(at);
            noThrow(c, [&] {
                IndexStatusPtr st = check(k.dir, c);
                std::vector<Seg> s = learn(k.dir);
                clean(st, s, c);
            });
            sim::stat("crash_images");
            drop(k);
        }
    }
};

void gen17(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", r.below(12) ? r.below(3) ? 1 : 2 : 0);
    genSched(p, r, true);
    int th = r.below(3) ? 1 : 2 + (int)r.below(2);
    p.set("threads", th);
    OpMix m;
    m.add(O_ADD, 30).add(O_UPD, 16).add(O_DELID, 8).add(O_DELGRP, 2).add(O_DELNUM, 2).add(O_COMMIT, 8).add(O_OPTIMIZE, 1).add(O_EXPUNGE, 1).add(O_GETREADER, 2).add(O_CLOSEREOPEN, 2).add(O_ADDINDEXES, 2).add(O_ADDREADERS, 1).add(O_SETTING, 2).add(O_ROLLBACK, 1);
    genOps(p, r, m, th, 5 + (int)r.below(tier && r.below(3) == 0 ? 100 : th == 1 ? 40 : 16), 2 + (int)r.below(8));
    if (r.below(3)) {
        p.set("faults", 1);
        p.set("f.max", 1 + (int64_t)r.below(r.below(2) ? 6 : 30));
        static const double rates[] = {0.2, 0.03, 0.01, 0.003};
        for (int i = 1 + (int)r.below(3); i > 0; --i) {
            double x = rates[r.below(4)];
            switch (r.below(8)) {
            case 0: case 6: case 7: p.setRate(sim::OC_READ, sim::F_EIO, x / 2); break;
            case 1: p.setRate(sim::OC_OPENR, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, x); break;
            case 2: p.setRate(sim::OC_MMAP, sim::F_EIO, x); p.setRate(sim::OC_LIST, sim::F_EIO, x); break;
            case 3: p.setRate(sim::OC_WRITE, r.below(2) ? sim::F_EIO : sim::F_ENOSPC, 0.2); break;
            case 4: p.setRate(sim::OC_FSYNC, sim::F_FSYNC_EIO, 0.3); break;
            default: p.setRate(sim::OC_OPENW, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, 0.3);
            }
        }
    }
    p.set("damages", 2 + (int64_t)r.below(6));
    p.set("images", r.below(2) ? (int64_t)r.below(4) : 0);
    p.set("v.bits", r.below(2) ? V_STORED : V_ALL);
}
void run17(const Plan& p) {
    CheckWorld w(p);
    sim::enableFaults(false);
    w.start();
    w.run();
    w.finish();
    noThrow("the index at the end", [&] {
        w.segs = w.learn(w.dir);
        Collection<IndexCommitPtr> cs = IndexReader::listCommits(w.dir);
        for (int i = 0; i < cs.size(); ++i) {
            IndexReaderPtr r = IndexReader::open(cs[i], true);
            w.commitDocs.push_back(readState(r).uids);
            r->close();
        }
    });
    sim::Rng g(sim::mix(p.seed, 1717));
    w.sound();
    if (w.disk) {
        for (int i = (int)p.get("damages"); i > 0; --i) {
            sim::progress();
            if (g.below(5) == 0) {
                w.damageSegments(g);
            } else {
                w.damage(g);
            }
        }
        if (p.get("faults")) {
            sim::progress();
            w.failingReads();
            w.failingReader(g);
        }
        w.images((int)p.get("images"), g);
    }
    w.policy.reset();
    w.closeAll();
    if (sim::openFds() || sim::openMaps()) {
        sim::violation("leaked-handle", "open after everything was closed: " + sim::describeOpenFds());
    }
}
RegisterProp reg17("C17", gen17, run17, lu::opName);
}
