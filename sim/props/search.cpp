// C18: searches by many threads over shared searchers, caches and filters. C19: searches with a time limit.
#include "world.h"
#include "CachingSpanFilter.h"
#include "CachingWrapperFilter.h"
#include "ConstantScoreQuery.h"
#include "DisjunctionMaxQuery.h"
#include "FieldCache.h"
#include "FieldCacheRangeFilter.h"
#include "FieldCacheTermsFilter.h"
#include "FieldCacheImpl.h"
#include "FieldDoc.h"
#include "FilteredQuery.h"
#include "MatchAllDocsQuery.h"
#include "MultiReader.h"
#include "MultiSearcher.h"
#include "NumericRangeFilter.h"
#include "ParallelMultiSearcher.h"
#include "QueryWrapperFilter.h"
#include "ScoreDoc.h"
#include "Scorer.h"
#include "Sort.h"
#include "SortField.h"
#include "SpanQueryFilter.h"
#include "SpanTermQuery.h"
#include "TimeLimitingCollector.h"
#include "TopDocs.h"
#include "TopFieldDocs.h"
#include "BooleanQuery.h"
#include "Collector.h"
#include "MapOfSets.h"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace lu;
using namespace Lucene;

namespace {
enum QOp { Q_SEARCH = 1, Q_CACHE, Q_NRT, Q_CLONE, Q_OPEN, Q_WRITE, Q_DOC, Q_ENTRIES, Q_PURGE, T_SEARCH, T_STOP, T_SLEEP, T_RES };
const char* searchOpName(int k) {
    static const char* n[] = {"?", "search", "field-cache", "search-nrt", "search-clone", "search-new-reader", "write", "explain", "cache-entries", "purge-caches", "timed-search", "stop-timer", "sleep", "set-resolution"};
    return k >= 0 && k <= 13 ? n[k] : "?";
}
typedef std::function<bool(uint64_t)> Match;
struct Spec {
    QueryPtr q; // shared by all threads, or null: built anew from the seed
    uint64_t seed;
    int kind;   // 0 top n, 1 sorted, 2 collector
    int sort, filt, n, wrap;
};
struct Result {
    int total = 0;
    std::vector<int> docs;
    std::vector<double> scores;
    std::string fields;
    bool tooMany = false;
    bool operator==(const Result& o) const { return total == o.total && docs == o.docs && scores == o.scores && fields == o.fields && tooMany == o.tooMany; }
    std::string text() const {
        std::string s = tooMany ? "too many clauses" : std::to_string(total) + " hits:";
        for (size_t i = 0; i < docs.size() && i < 30; ++i) {
            char b[60];
            snprintf(b, sizeof b, " %d(%.9g)", docs[i], i < scores.size() ? scores[i] : 0.0);
            s += b;
        }
        return s + (fields.empty() ? "" : " fields " + fields.substr(0, 200));
    }
};

class AllHits : public Collector {
public:
    explicit AllHits(bool ooo) : out(ooo) {}
    virtual ~AllHits() {}
    LUCENE_CLASS(AllHits);
    virtual void setScorer(const ScorerPtr& s) { scorer = s; }
    virtual void collect(int32_t doc) {
        if (delay) {
            delay();
        }
        hits.push_back(std::make_pair(base + doc, scorer->score()));
        if (after) {
            after();
        }
    }
    virtual void setNextReader(const IndexReaderPtr&, int32_t docBase) { base = docBase; }
    virtual bool acceptsDocsOutOfOrder() { return out; }
    ScorerPtr scorer;
    int base = 0;
    bool out;
    std::vector<std::pair<int, double>> hits;
    std::function<void()> delay, after;
};

String srtOf(uint64_t uid) { return model(uid).inst.back().text; }

struct SearchWorld : World {
    std::vector<uint64_t> universe;
    std::vector<DirectoryPtr> dirs;
    std::vector<IndexReaderPtr> readers;
    std::vector<SearcherPtr> searchers;  // one per index, then MultiSearcher, ParallelMultiSearcher, IndexSearcher over a MultiReader
    std::vector<Snapshot> snaps;         // by searcher
    std::vector<Spec> specs;
    std::vector<std::vector<Result>> want; // [searcher][spec]
    std::vector<FilterPtr> filters;
    std::vector<Match> fmatch;
    uint64_t nextId = 1;
    bool faults = false;
    uint64_t fseed = 0;
    std::string lastText;

    explicit SearchWorld(const Plan& p) : World(p) {}

    void makeFilters(std::vector<FilterPtr>& f) {
        sim::Rng g(fseed);
        f.clear();
        fmatch.clear();
        f.push_back(FilterPtr());
        fmatch.push_back([](uint64_t) { return true; });
        static const CachingWrapperFilter::DeletesMode modes[] = {CachingWrapperFilter::DELETES_IGNORE, CachingWrapperFilter::DELETES_RECACHE, CachingWrapperFilter::DELETES_DYNAMIC};
        for (int i = 0; i < 3; ++i) {
            RandQuery q = randQuery(g, universe, 1);
            f.push_back(newLucene<CachingWrapperFilter>(newLucene<QueryWrapperFilter>(q.q), modes[i]));
            fmatch.push_back(q.match);
        }
        int lo = numOf(universe[g.below(universe.size())]), hi = lo + (int)g.below(50);
        f.push_back(FieldCacheRangeFilter::newIntRange(L"num", FieldCache::NUMERIC_UTILS_INT_PARSER(), lo, hi, true, true));
        fmatch.push_back([=](uint64_t u) { return numOf(u) >= lo && numOf(u) <= hi; });
        String a = srtOf(universe[g.below(universe.size())]), b = srtOf(universe[g.below(universe.size())]);
        if (b < a) {
            std::swap(a, b);
        }
        f.push_back(FieldCacheRangeFilter::newStringRange(L"srt", a, b, true, false));
        fmatch.push_back([=](uint64_t u) { return srtOf(u) >= a && srtOf(u) < b; });
        std::set<String> terms;
        Collection<String> tc = Collection<String>::newInstance();
        for (uint64_t n = 1 + g.below(4); n > 0; --n) {
            String t = srtOf(universe[g.below(universe.size())]);
            terms.insert(t);
            tc.add(t);
        }
        f.push_back(newLucene<FieldCacheTermsFilter>(L"srt", tc));
        fmatch.push_back([=](uint64_t u) { return terms.count(srtOf(u)) != 0; });
        String gt = grpText(0, (int)g.below(3));
        f.push_back(newLucene<CachingSpanFilter>(newLucene<SpanQueryFilter>(newLucene<SpanTermQuery>(newLucene<Term>(L"grp", gt))), g.below(2) ? CachingWrapperFilter::DELETES_IGNORE : CachingWrapperFilter::DELETES_RECACHE));
        fmatch.push_back([=](uint64_t u) { return grpText(uidThread(u), groupOf(u)) == gt; });
        f.push_back(newLucene<CachingWrapperFilter>(NumericRangeFilter::newIntRange(L"num", 4, lo, hi, false, true), CachingWrapperFilter::DELETES_DYNAMIC));
        fmatch.push_back([=](uint64_t u) { return numOf(u) > lo && numOf(u) <= hi; });
        size_t inner = 4 + g.below(3);
        f.push_back(newLucene<CachingWrapperFilter>(f[inner], modes[1 + g.below(2)]));
        fmatch.push_back(fmatch[inner]);
    }
    QueryPtr makeQuery(const Spec& s, const std::vector<FilterPtr>& f, Match* m = nullptr) {
        sim::Rng g(s.seed);
        RandQuery q = randQuery(g, universe), q2 = randQuery(g, universe, 1);
        QueryPtr out = q.q;
        Match mm = q.match;
        size_t fi = 1 + g.below(f.size() - 1);
        Match fm = fmatch[fi];
        switch (s.wrap) {
        case 1: {
            DisjunctionMaxQueryPtr d = newLucene<DisjunctionMaxQuery>(0.3);
            d->add(q.q);
            d->add(q2.q);
            out = d;
            mm = [q, q2](uint64_t u) { return q.match(u) || q2.match(u); };
            break;
        }
        case 2:
            out = newLucene<FilteredQuery>(q.q, f[fi]);
            mm = [q, fm](uint64_t u) { return q.match(u) && fm(u); };
            break;
        case 3:
            if (fi == 1 || fi == 7) {
                fi = 3; // a filter that ignores deletions
                fm = fmatch[fi];
            }
            {
                BooleanQueryPtr b = newLucene<BooleanQuery>();
                b->add(newLucene<ConstantScoreQuery>(f[fi]), BooleanClause::SHOULD);
                b->add(q.q, BooleanClause::SHOULD);
                out = b;
            }
            mm = [q, fm](uint64_t u) { return q.match(u) || fm(u); };
            break;
        case 4: {
            BooleanQueryPtr b = newLucene<BooleanQuery>();
            b->add(newLucene<MatchAllDocsQuery>(), BooleanClause::MUST);
            b->add(q.q, BooleanClause::SHOULD);
            out = b;
            mm = [](uint64_t) { return true; };
            break;
        }
        }
        if (s.wrap && s.seed % 3 == 0) {
            out->setBoost(2.5);
        }
        if (m) {
            *m = mm;
            lastText = q.text + (s.wrap == 1 ? " or " + q2.text : s.wrap == 2 || s.wrap == 3 ? " with filter " + std::to_string(fi) : "");
        }
        return out;
    }
    SortPtr makeSort(int k) {
        Collection<SortFieldPtr> f = Collection<SortFieldPtr>::newInstance();
        switch (k) {
        case 0: f.add(newLucene<SortField>(L"srt", SortField::STRING)); break;
        case 1: f.add(newLucene<SortField>(L"srt", SortField::STRING, true)); break;
        case 2: f.add(newLucene<SortField>(L"num", SortField::INT)); break;
        case 3:
            f.add(newLucene<SortField>(L"num", SortField::INT, true));
            f.add(newLucene<SortField>(L"srt", SortField::STRING));
            break;
        case 4: f.add(newLucene<SortField>(L"", SortField::DOC, true)); break;
        case 5:
            f.add(newLucene<SortField>(L"num", SortField::INT));
            f.add(SortField::FIELD_DOC());
            break;
        case 6: f.add(newLucene<SortField>(L"srt", SortField::STRING_VAL)); break;
        default:
            f.add(SortField::FIELD_SCORE());
            f.add(SortField::FIELD_DOC());
            break;
        }
        return newLucene<Sort>(f);
    }
    Result search(const SearcherPtr& s, const Spec& sp, const QueryPtr& q, const FilterPtr& f) {
        Result r;
        try {
            if (sp.kind == 2) {
                boost::shared_ptr<AllHits> c = newLucene<AllHits>(sp.seed % 2 == 0);
                s->search(q, f, c);
                std::sort(c->hits.begin(), c->hits.end());
                r.total = (int)c->hits.size();
                for (const std::pair<int, double>& h : c->hits) {
                    r.docs.push_back(h.first);
                    r.scores.push_back(h.second);
                }
                return r;
            }
            TopDocsPtr td;
            if (sp.kind == 1) {
                TopFieldDocsPtr fd = s->search(q, f, sp.n, makeSort(sp.sort));
                td = fd;
            } else {
                td = s->search(q, f, sp.n);
            }
            r.total = td->totalHits;
            for (int i = 0; i < td->scoreDocs.size(); ++i) {
                r.docs.push_back(td->scoreDocs[i]->doc);
                double x = td->scoreDocs[i]->score;
                r.scores.push_back(std::isnan(x) ? -1 : x);
                if (sp.kind == 1) {
                    FieldDocPtr fd = boost::dynamic_pointer_cast<FieldDoc>(td->scoreDocs[i]);
                    for (int k = 0; fd && fd->fields && k < fd->fields.size(); ++k) {
                        const boost::any& v = fd->fields[k];
                        if (const String* t = boost::any_cast<String>(&v)) {
                            r.fields += narrow(*t) + ",";
                        } else if (const int32_t* t2 = boost::any_cast<int32_t>(&v)) {
                            r.fields += std::to_string(*t2) + ",";
                        } else if (const double* t3 = boost::any_cast<double>(&v)) {
                            r.fields += std::to_string(*t3) + ",";
                        }
                    }
                }
            }
        } catch (TooManyClausesException&) {
            r.tooMany = true;
        }
        return r;
    }
    // the hits must be what the documents imply
    void checkModel(const Result& r, const Spec& sp, const Match& m, const Snapshot& s, const char* c) {
        if (r.tooMany) {
            return;
        }
        std::vector<std::pair<int, uint64_t>> hit;
        for (size_t i = 0; i < s.uids.size(); ++i) {
            if (m(s.uids[i]) && fmatch[(size_t)sp.filt](s.uids[i])) {
                hit.push_back(std::make_pair(s.docs[i], s.uids[i]));
            }
        }
        if (sp.kind == 1) {
            int k = sp.sort;
            std::stable_sort(hit.begin(), hit.end(), [k](const std::pair<int, uint64_t>& a, const std::pair<int, uint64_t>& b) {
                switch (k) {
                case 0:
                case 6: return srtOf(a.second) < srtOf(b.second);
                case 1: return srtOf(b.second) < srtOf(a.second);
                case 2:
                case 5: return numOf(a.second) < numOf(b.second);
                case 3: return numOf(a.second) != numOf(b.second) ? numOf(a.second) > numOf(b.second) : srtOf(a.second) < srtOf(b.second);
                case 4: return a.first > b.first;
                }
                return false;
            });
        }
        std::vector<int> want, got = r.docs;
        for (const std::pair<int, uint64_t>& h : hit) {
            want.push_back(h.first);
        }
        size_t n = sp.kind == 2 ? want.size() : std::min(want.size(), (size_t)sp.n);
        bool ok = r.total == (int)want.size() && got.size() == n;
        if (sp.kind == 1 && sp.sort < 7) {
            want.resize(n);
            ok = ok && got == want;
        } else {
            std::sort(got.begin(), got.end());
            ok = ok && std::includes(want.begin(), want.end(), got.begin(), got.end());
        }
        if (!ok) {
            std::string t = "want";
            for (int x : want) {
                t += " " + std::to_string(x);
            }
            sim::violation("wrong-hits", std::string(c) + ": kind " + std::to_string(sp.kind) + " sort " + std::to_string(sp.sort) + " filter " + std::to_string(sp.filt) + " wrap " + std::to_string(sp.wrap) + " " + lastText + ": " + r.text() + "; " + t.substr(0, 500));
        }
    }
    void fill(int k) {
        std::string m = k ? "s" + std::to_string(k) : mnt;
        if (k && !ram) {
            sim::mount(m, sim::newDisk(), proc);
        }
        DirectoryPtr d = openDir(m, true);
        dirs.push_back(d);
        IndexWriterPtr x = openWriter(d, true);
        std::vector<uint64_t> mine;
        for (int64_t i = 0; i < p.get("docs", 12); ++i) {
            uint64_t u = makeUid(k, nextId++, 0);
            x->addDocument(makeDoc(u));
            mine.push_back(u);
            universe.push_back(u);
            if (hrng.below(7) == 0) {
                x->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)mine[hrng.below(mine.size())])));
            }
            if (hrng.below(8) == 0) {
                x->commit();
            }
        }
        if (hrng.below(5) == 0) {
            x->optimize();
        }
        x->close();
    }
    void open(std::vector<IndexReaderPtr>& rs, std::vector<SearcherPtr>& ss, bool parallel) {
        Collection<SearchablePtr> sub = Collection<SearchablePtr>::newInstance();
        Collection<IndexReaderPtr> subr = Collection<IndexReaderPtr>::newInstance();
        for (size_t i = 0; i < dirs.size(); ++i) {
            rs.push_back(IndexReader::open(dirs[i], p.get("ro", 1) != 0));
            IndexSearcherPtr s = newLucene<IndexSearcher>(rs.back());
            ss.push_back(s);
            sub.add(s);
            subr.add(rs.back());
        }
        ss.push_back(newLucene<MultiSearcher>(sub));
        ss.push_back(parallel ? boost::static_pointer_cast<Searcher>(newLucene<ParallelMultiSearcher>(sub)) : boost::static_pointer_cast<Searcher>(newLucene<MultiSearcher>(sub)));
        rs.push_back(newLucene<MultiReader>(subr, false));
        ss.push_back(newLucene<IndexSearcher>(rs.back()));
    }
    void closeReaders(std::vector<IndexReaderPtr>& rs, std::vector<SearcherPtr>& ss) {
        noThrow("closing searchers", [&] {
            for (const SearcherPtr& s : ss) {
                s->close();
            }
            for (const IndexReaderPtr& r : rs) {
                r->close();
            }
        });
        ss.clear();
        rs.clear();
    }
    void prepare() {
        noThrow("creating the indexes", [&] {
            for (int i = 0; i < p.get("indexes", 1); ++i) {
                fill(i);
            }
        });
        fseed = sim::mix(p.seed, 4242);
        sim::Rng g(sim::mix(p.seed, 99));
        makeFilters(filters);
        for (int64_t i = 0; i < p.get("specs", 8); ++i) {
            Spec s;
            s.seed = g.next();
            s.kind = (int)g.below(3);
            s.sort = (int)g.below(8);
            s.filt = g.below(2) ? 0 : (int)g.below(filters.size());
            s.n = 1 + (int)g.below((uint64_t)p.get("docs", 12) * (uint64_t)p.get("indexes", 1) + 3);
            s.wrap = g.below(2) ? 0 : (int)g.below(5);
            if (p.get("share", 1)) {
                s.q = makeQuery(s, filters);
            }
            specs.push_back(s);
        }
        // what each search gives when nobody else searches: other readers, other filters, other queries
        noThrow("searching alone", [&] {
            std::vector<IndexReaderPtr> rs;
            std::vector<SearcherPtr> ss;
            open(rs, ss, false);
            Snapshot all;
            for (size_t ri = 0; ri < dirs.size(); ++ri) {
                Snapshot s = readState(rs[ri]);
                snaps.push_back(s);
                for (size_t i = 0; i < s.uids.size(); ++i) {
                    all.uids.push_back(s.uids[i]);
                    all.docs.push_back(s.docs[i] + all.maxDoc);
                }
                all.maxDoc += s.maxDoc;
            }
            snaps.push_back(all);
            snaps.push_back(all);
            snaps.push_back(all);
            for (size_t k = 0; k < ss.size(); ++k) {
                want.push_back(std::vector<Result>());
                for (const Spec& sp : specs) {
                    std::vector<FilterPtr> fs;
                    makeFilters(fs);
                    Match m;
                    QueryPtr q = makeQuery(sp, fs, &m);
                    Result r = search(ss[k], sp, q, fs[(size_t)sp.filt]);
                    if (k < dirs.size() || k == ss.size() - 1) {
                        checkModel(r, sp, m, snaps[k], "a single search");
                    }
                    want.back().push_back(r);
                }
            }
            closeReaders(rs, ss);
        });
        noThrow("opening searchers", [&] { open(readers, searchers, true); });
    }
    // a search may fail only when the disk did
    bool attempt(const char* c, const std::function<void()>& fn) {
        int before = sim::faultsFired();
        try {
            fn();
            return true;
        } catch (LuceneException& e) {
            if (!faults || (sim::faultsFired() == before && before == 0)) {
                sim::violation("unexpected-exception", std::string(c) + ": " + excText(e));
            }
            sim::stat("searches_failed_by_faults");
        } catch (std::exception& e) {
            sim::violation("unexpected-exception", std::string(c) + ": " + e.what());
        }
        return false;
    }
    void searchOne(size_t k, size_t i) {
        const Spec& sp = specs[i];
        attempt("a search", [&] {
            Result r = search(searchers[k], sp, sp.q ? sp.q : makeQuery(sp, filters), filters[(size_t)sp.filt]);
            if (!(r == want[k][i])) {
                sim::violation("differs-from-solo", "searcher " + std::to_string(k) + " of " + std::to_string(searchers.size()) + ", kind " + std::to_string(sp.kind) + " sort " + std::to_string(sp.sort) + " n " + std::to_string(sp.n) + " filter " + std::to_string(sp.filt) + " wrap " + std::to_string(sp.wrap) + ": " + r.text() + "; alone: " + want[k][i].text());
            }
            sim::stat("searches");
        });
    }
    // another reader with the same filters, checked with the documents
    void searchOther(const IndexReaderPtr& r, sim::Rng& g, const char* c, bool nrt = false) {
        Snapshot s = readState(r);
        SearcherPtr is = newLucene<IndexSearcher>(r);
        for (int n = 0; n < 2; ++n) {
            Spec sp = specs[g.below(specs.size())];
            sp.n = s.maxDoc + 1;
            Match m;
            std::vector<FilterPtr> f = filters;
            if (nrt) {
                // a filter that ignores deletions keeps what the first reader of a segment gave: by its
                // documentation, and not only for the readers with fewer deletions
                std::vector<FilterPtr> fresh;
                sim::NoPreempt np;
                makeFilters(fresh);
                f[1] = fresh[1];
                f[7] = fresh[7];
            }
            QueryPtr q = makeQuery(sp, f, &m);
            Result x = search(is, sp, q, f[(size_t)sp.filt]);
            checkModel(x, sp, m, s, c);
        }
        is->close();
        sim::stat("searches_of_other_readers");
    }
    void cacheCheck(const IndexReaderPtr& r, const Snapshot& s, sim::Rng& g) {
        switch (g.below(3)) {
        case 0: {
            Collection<int32_t> v = FieldCache::DEFAULT()->getInts(r, L"num", g.below(2) ? FieldCache::NUMERIC_UTILS_INT_PARSER() : IntParserPtr());
            for (size_t i = 0; i < s.uids.size(); ++i) {
                if (v.size() != s.maxDoc || v[s.docs[i]] != numOf(s.uids[i])) {
                    sim::violation("field-cache", "the cached value of document " + uidStr(s.uids[i]) + " is wrong");
                }
            }
            break;
        }
        case 1: {
            Collection<String> v = FieldCache::DEFAULT()->getStrings(r, L"srt");
            for (size_t i = 0; i < s.uids.size(); ++i) {
                if (v.size() != s.maxDoc || v[s.docs[i]] != srtOf(s.uids[i])) {
                    sim::violation("field-cache", "the cached string of document " + uidStr(s.uids[i]) + " is wrong");
                }
            }
            break;
        }
        default: {
            StringIndexPtr v = FieldCache::DEFAULT()->getStringIndex(r, L"srt");
            for (size_t i = 0; i < s.uids.size(); ++i) {
                if (v->order.size() != s.maxDoc || v->lookup[v->order[s.docs[i]]] != srtOf(s.uids[i])) {
                    sim::violation("field-cache", "the cached string index of document " + uidStr(s.uids[i]) + " is wrong");
                }
            }
            for (int i = 2; i < v->lookup.size(); ++i) {
                if (!(v->lookup[i - 1] < v->lookup[i])) {
                    sim::violation("field-cache", "the string index is not in order");
                }
            }
        }
        }
        sim::stat("field_cache_reads");
    }
    void step(int t, const Op& op, sim::Rng& g) {
        sim::event(searchOpName(op.kind), t, op.a);
        sim::progress();
        size_t di = (size_t)op.b % dirs.size();
        switch (op.kind) {
        case Q_SEARCH:
            searchOne((size_t)op.b % searchers.size(), (size_t)op.a % specs.size());
            break;
        case Q_CACHE:
            attempt("reading the field cache", [&] {
                IndexReaderPtr r = readers[di];
                Collection<IndexReaderPtr> sub = r->getSequentialSubReaders();
                if (op.a % 3 == 0) {
                    cacheCheck(r, snaps[di], g);
                } else if (sub && sub.size()) {
                    int at = (int)g.below((uint64_t)sub.size()), base = 0;
                    for (int i = 0; i < at; ++i) {
                        base += sub[i]->maxDoc();
                    }
                    Snapshot s;
                    s.maxDoc = sub[at]->maxDoc();
                    for (size_t i = 0; i < snaps[di].uids.size(); ++i) {
                        int d = snaps[di].docs[i] - base;
                        if (d >= 0 && d < s.maxDoc) {
                            s.uids.push_back(snaps[di].uids[i]);
                            s.docs.push_back(d);
                        }
                    }
                    cacheCheck(sub[at], s, g);
                }
            });
            break;
        case Q_NRT:
            attempt("searching a near-real-time reader", [&] {
                if (w) {
                    IndexReaderPtr r = w->getReader();
                    LuceneException fin;
                    try {
                        searchOther(r, g, "a near-real-time reader", true);
                    } catch (LuceneException& e) {
                        fin = e;
                    }
                    r->close();
                    fin.throwException();
                }
            });
            break;
        case Q_CLONE:
            attempt("searching a clone", [&] {
                bool del = op.c % 2 && !p.get("ro", 1) && !faults;
                IndexReaderPtr r = boost::dynamic_pointer_cast<IndexReader>(readers[di]->clone(true));
                LuceneException fin;
                try {
                    searchOther(r, g, "a clone");
                } catch (LuceneException& e) {
                    fin = e;
                }
                r->close();
                fin.throwException();
                (void)del;
            });
            break;
        case Q_OPEN:
            attempt("searching a new reader", [&] {
                IndexReaderPtr r = IndexReader::open(dirs[di], true);
                LuceneException fin;
                try {
                    searchOther(r, g, "a new reader");
                } catch (LuceneException& e) {
                    fin = e;
                }
                r->close();
                fin.throwException();
            });
            break;
        case Q_WRITE:
            attempt("writing", [&] {
                if (!w) {
                    return;
                }
                for (uint64_t n = 1 + g.below(4); n > 0; --n) {
                    uint64_t u;
                    {
                        sim::NoPreempt np;
                        u = makeUid(0, nextId++, 0);
                    }
                    w->addDocument(makeDoc(u));
                }
                if (op.a % 3 == 0) {
                    w->deleteDocuments(newLucene<Term>(L"uid", L"u" + StringUtils::toString((int64_t)universe[g.below(universe.size())])));
                }
                if (op.b % 2) {
                    w->commit();
                }
                sim::stat("writes");
            });
            break;
        case Q_DOC:
            attempt("explaining", [&] {
                size_t k = (size_t)op.b % searchers.size(), i = (size_t)op.a % specs.size();
                const Result& x = want[k][i];
                if (!x.docs.empty() && specs[i].kind != 1) {
                    size_t h = g.below(x.docs.size());
                    std::map<int, uint64_t> at;
                    for (size_t z = 0; z < snaps[k].docs.size(); ++z) {
                        at[snaps[k].docs[z]] = snaps[k].uids[z];
                    }
                    DocumentPtr d = searchers[k]->doc(x.docs[h]);
                    if (d->get(L"uid") != L"u" + StringUtils::toString((int64_t)at[x.docs[h]])) {
                        sim::violation("wrong-hits", "the stored fields of a hit belong to another document");
                    }
                    sim::stat("documents_loaded");
                }
            });
            break;
        case Q_ENTRIES:
            attempt("listing the field cache", [&] { FieldCache::DEFAULT()->getCacheEntries(); });
            break;
        case Q_PURGE:
            attempt("purging the field cache", [&] { FieldCache::DEFAULT()->purgeAllCaches(); });
            break;
        }
    }
    void go() {
        prepare();
        faults = p.get("faults") != 0;
        if (p.get("writer")) {
            noThrow("opening a writer", [&] { w = openWriter(dirs[0], false); });
        }
        if (faults) {
            sim::enableFaults(true);
        }
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t] {
                sim::Rng g(p.seed * 77 + (uint64_t)t);
                for (const Op& op : p.ops) {
                    if (op.th == t) {
                        step(t, op, g);
                    }
                }
            }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        if (faults) {
            sim::enableFaults(false);
            faults = false;
            for (size_t k = 0; k < searchers.size(); ++k) {
                for (size_t i = 0; i < specs.size(); ++i) {
                    searchOne(k, i);
                }
            }
        }
        closeReaders(readers, searchers);
        if (w) {
            noThrow("closing the writer", [&] { w->close(); });
            w.reset();
        }
        for (Spec& s : specs) {
            s.q.reset();
        }
        filters.clear(); // a cached filter may keep the readers it was computed with
        // a thread of the pool can be stalled between handing over its result and giving up what it searched
        std::string left;
        for (int k = 0; k < 50; ++k) {
            left.clear();
            noThrow("listing the field cache", [&] {
                Collection<FieldCacheEntryPtr> e = FieldCache::DEFAULT()->getCacheEntries();
                for (int i = 0; i < e.size(); ++i) {
                    left += " " + std::string(typeid(*e[i]->getReaderKey()).name()) + "/" + narrow(e[i]->getFieldName()) + "/" + std::to_string(e[i]->getCacheType());
                }
            });
            if (left.empty()) {
                break;
            }
            sim::sleepNs(1000000000LL);
        }
        if (!left.empty()) {
            sim::violation("field-cache-leak", "field cache entries of closed readers stay:" + left + " open: " + sim::describeOpenFds());
        }
        if (disk && (sim::openFds(proc) || sim::openMaps(proc))) {
            sim::violation("leaked-handles", "all searchers are closed but files are still open: " + sim::describeOpenFds(proc));
        }
    }

    // ------------------------------------------------------------ C19
    void timed(const Op& op, sim::Rng& g) {
        size_t i = (size_t)op.a % specs.size(), k = 0;
        bool chaos = p.get("chaos") != 0;
        static const int64_t allow[] = {0, 1, 5, 19, 20, 40, 77, 200, 1000, 100000};
        int64_t allowed = allow[(size_t)op.b % 10];
        bool greedy = op.c & 1;
        Match m;
        QueryPtr q = makeQuery(specs[i], filters, &m);
        boost::shared_ptr<AllHits> full = newLucene<AllHits>(false);
        noThrow("a search without a limit", [&] { searchers[k]->search(q, FilterPtr(), full); });
        int64_t step = (int64_t)g.below(3) == 0 ? 0 : (int64_t)g.below(60) * 1000000;
        boost::shared_ptr<AllHits> part = newLucene<AllHits>(false);
        boost::shared_ptr<TimeLimitingCollector> c;
        bool exceeded = false;
        int64_t res = TimeLimitingCollector::getResolution();
        int64_t t0 = 0, tEnd = 0, lastStart = 0;
        std::string text;
        noThrow("a search with a limit", [&] {
            t0 = sim::now();
            c = newLucene<TimeLimitingCollector>(part, allowed);
            int64_t t1 = sim::now();
            c->setGreedy(greedy);
            part->delay = [&] {
                lastStart = sim::now();
            };
            part->after = [&] {
                // documents accepted long after the limit: the timer must have noticed
                if (!chaos && !timerDisturbed && lastStart - t1 > (allowed + 3 * std::max(res, maxRes) + 30) * 1000000 && !greedy) {
                    sim::violation("limit-ignored", "a document was collected " + std::to_string((lastStart - t1) / 1000000) + " ms after the search began, allowed are " + std::to_string(allowed) + " ms");
                }
                if (step) {
                    sim::sleepNs(step);
                }
            };
            try {
                searchers[k]->search(q, FilterPtr(), c);
            } catch (TimeExceededException& e) {
                exceeded = true;
                text = excText(e);
            }
            tEnd = sim::now();
        });
        sim::stat(exceeded ? "timed_searches_stopped" : "timed_searches_finished");
        if (part->hits.size() > full->hits.size() || !std::equal(part->hits.begin(), part->hits.end(), full->hits.begin())) {
            sim::violation("wrong-partial", "a search with a time limit collected other documents than one without");
        }
        if (!exceeded && part->hits.size() != full->hits.size()) {
            sim::violation("wrong-partial", "a search that was not stopped lost documents");
        }
        if (exceeded) {
            if (greedy ? part->hits.empty() : part->hits.size() >= full->hits.size()) {
                sim::violation("wrong-partial", greedy ? "a greedy collector collected nothing" : "a search was stopped although all documents were collected");
            }
            if (!timerDisturbed && tEnd - t0 < (allowed - std::max(res, maxRes)) * 1000000) {
                sim::violation("stopped-early", "a search was stopped after " + std::to_string((tEnd - t0) / 1000) + " us, allowed are " + std::to_string(allowed) + " ms at a resolution of " + std::to_string(res) + " ms: " + text);
            }
        }
    }
    bool timerDisturbed = false;
    int64_t maxRes = 20;
    void goTimed() {
        prepare();
        if (!p.get("chaos")) {
            sim::setChaos(false);
        }
        std::vector<sim::Tid> ts;
        for (int t = 0; t < nth; ++t) {
            ts.push_back(sim::go([this, t] {
                sim::Rng g(p.seed * 77 + (uint64_t)t);
                for (const Op& op : p.ops) {
                    if (op.th != t) {
                        continue;
                    }
                    sim::event(searchOpName(op.kind), t, op.a);
                    sim::progress();
                    switch (op.kind) {
                    case T_SEARCH: timed(op, g); break;
                    case T_STOP: {
                        int64_t b = sim::now();
                        noThrow("stopping the timer", [&] { TimeLimitingCollector::stopTimer(); });
                        (void)b;
                        sim::stat("timer_stops");
                        break;
                    }
                    case T_SLEEP: sim::sleepNs((op.a % 300) * 1000000LL); break;
                    case T_RES:
                        TimeLimitingCollector::setResolution(1 + op.a % 60);
                        maxRes = std::max(maxRes, TimeLimitingCollector::getResolution());
                        break;
                    }
                }
            }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        closeReaders(readers, searchers);
    }
};

void gen18(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    p.set("delpol", 0);
    genSched(p, r, true);
    p.set("indexes", r.below(3) ? 1 + (int64_t)r.below(3) : 1);
    p.set("docs", 3 + (int64_t)r.below(r.below(4) ? 14 : 40));
    p.set("specs", 3 + (int64_t)r.below(8));
    p.set("share", r.below(4) != 0);
    p.set("ro", r.below(3) != 0);
    p.set("writer", r.below(2));
    p.set("rich", (int64_t)r.below(2));
    if (p.get("dir") == 1 && r.below(3) == 0) {
        p.set("faults", 1);
        p.set("writer", 0);
        p.setRate(sim::OC_READ, sim::F_EIO, r.below(2) ? 0.05 : 0.01);
        p.set("f.max", 30);
    }
    OpMix m;
    m.add(Q_SEARCH, 30).add(Q_CACHE, 6).add(Q_NRT, p.get("writer") ? 4 : 0).add(Q_CLONE, 3).add(Q_OPEN, 3).add(Q_WRITE, p.get("writer") ? 5 : 0).add(Q_DOC, 4).add(Q_ENTRIES, 1).add(Q_PURGE, r.below(4) == 0);
    genOps(p, r, m, 2 + (int)r.below(4), 4 + (int)r.below(tier ? 40 : 16), 2);
}
void gen19(Plan& p, sim::Rng& r, int tier) {
    genConfig(p, r, tier);
    p.set("dir", (int64_t)r.below(3));
    p.set("delpol", 0);
    genSched(p, r, true);
    p.set("indexes", 1);
    p.set("docs", 3 + (int64_t)r.below(14));
    p.set("specs", 4);
    p.set("rich", 0);
    p.set("chaos", r.below(3) == 0);
    OpMix m;
    m.add(T_SEARCH, 20).add(T_STOP, r.below(2) ? 5 : 0).add(T_SLEEP, 5).add(T_RES, r.below(3) == 0 ? 3 : 0);
    genOps(p, r, m, 1 + (int)r.below(4), 3 + (int)r.below(tier ? 20 : 8), 2);
}
void run18(const Plan& p) {
    SearchWorld w(p);
    setRichDocs((int)p.get("rich", 1));
    w.go();
}
void run19(const Plan& p) {
    SearchWorld w(p);
    setRichDocs((int)p.get("rich", 1));
    w.goTimed();
}
RegisterProp reg18("C18", gen18, run18, searchOpName);
RegisterProp reg19("C19", gen19, run19, searchOpName);
}
