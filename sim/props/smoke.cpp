#include "LuceneHeaders.h"
#include "plan.h"
#include "RAMDirectory.h"
#include "WhitespaceAnalyzer.h"
using namespace Lucene;

static void gen(Plan& p, sim::Rng& r, int) {
    p.set("s.switch_ppm", 100000);
    p.set("s.bb", 3000);
    p.set("n", r.range(5, 40));
}
static void run(const Plan& p) {
    sim::Disk* d = sim::newDisk();
    sim::mount("d0", d, 1);
    {
        DirectoryPtr dir = FSDirectory::open(L"/sim/d0/idx");
        IndexWriterPtr w = newLucene<IndexWriter>(dir, newLucene<WhitespaceAnalyzer>(), true, IndexWriter::MaxFieldLengthUNLIMITED);
        w->setMaxBufferedDocs(2);
        w->setMergeFactor(2);
        int n = (int)p.get("n");
        auto body = [&](int t) {
            for (int i = 0; i < n; ++i) {
                DocumentPtr doc = newLucene<Document>();
                doc->add(newLucene<Field>(L"id", StringUtils::toString(t * 1000 + i), Field::STORE_YES, Field::INDEX_NOT_ANALYZED));
                doc->add(newLucene<Field>(L"body", L"hello world foo bar", Field::STORE_NO, Field::INDEX_ANALYZED));
                w->addDocument(doc);
            }
        };
        std::vector<sim::Tid> ts;
        for (int t = 0; t < 3; ++t) {
            ts.push_back(sim::go([&, t] { body(t); }));
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        w->close();
        IndexReaderPtr r = IndexReader::open(dir, true);
        if (r->numDocs() != 3 * n) {
            sim::violation("count", "wrong count " + std::to_string(r->numDocs()));
        }
        r->close();
        dir->close();
        sim::stat("docs", 3 * n);
        sim::stat("openfds", sim::openFds());
    }
}
static RegisterProp reg("SMOKE", gen, run);
