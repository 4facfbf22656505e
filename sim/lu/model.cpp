#include "model.h"
#include "FieldCache.h"
#include "Payload.h"
#include "PayloadAttribute.h"
#include "TermAttribute.h"
#include "OffsetAttribute.h"
#include "PositionIncrementAttribute.h"
#include "TermPositions.h"
#include "TermFreqVector.h"
#include "TermPositionVector.h"
#include "TermVectorOffsetInfo.h"
#include "Similarity.h"
#include "SortField.h"
#include "TopFieldDocs.h"
#include "StringUtils.h"
#include <algorithm>
#include <math.h>
#include <string.h>

using namespace Lucene;

namespace lu {

String wide(const std::string& s) {
    String r;
    for (size_t i = 0; i < s.size(); ++i) {
        r += (wchar_t)(unsigned char)s[i];
    }
    return r;
}
std::string narrow(const String& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] >= 32 && s[i] < 127) {
            r += (char)s[i];
        } else {
            char b[16];
            snprintf(b, sizeof b, "\\u%x", (unsigned)s[i]);
            r += b;
        }
    }
    return r;
}
String idText(uint64_t key) {
    return wide("t" + std::to_string(key >> 20) + "i" + std::to_string(key & 0xFFFFF));
}
String grpText(int th, int g) {
    return wide("g" + std::to_string(th) + "_" + std::to_string(g));
}
std::string uidStr(uint64_t u) {
    return "t" + std::to_string(uidThread(u)) + "i" + std::to_string(uidId(u)) + "v" + std::to_string(u & 0xFFFFF);
}
std::string seqStr(const std::vector<uint64_t>& v, size_t max) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < max; ++i) {
        s += (i ? " " : "") + uidStr(v[i]);
    }
    if (v.size() > max) {
        s += " ...";
    }
    return s + "](" + std::to_string(v.size()) + ")";
}
int groupOf(uint64_t uid) {
    return (int)(sim::mix(uid, 77) % 3);
}
int numOf(uint64_t uid) {
    return uidThread(uid) * 1000 + (int)(sim::mix(uid, 78) % 64);
}
uint64_t hashBytes(uint64_t h, const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 0x100000001b3ULL;
    }
    return h;
}
uint64_t hashStr(uint64_t h, const String& s) {
    h = hashBytes(h, s.data(), s.size() * sizeof(wchar_t));
    return hashBytes(h, "|", 1);
}

static int g_rich = 1;
void setRichDocs(int r) {
    g_rich = r;
}

static String word(sim::Rng& r) {
    // skewed towards the first words; some with characters outside ASCII
    uint64_t k = r.below(24);
    k = r.below(k + 1);
    static const wchar_t* special[] = {L"\u00fcber", L"\u65e5\u672c", L"\u00e9", L"\uffee\uff21"};
    if (k >= 4 && k < 8) {
        return special[k - 4];
    }
    String w = L"w" + wide(std::to_string(k));
    if (k == 9) {
        w += L"longer_word_to_share_a_prefix";
    }
    if (k == 10) {
        w = L"w9longer_word_to_share_a_prefix_too";
    }
    return w;
}

static MInst base(const wchar_t* name, MInst::Kind k) {
    MInst m;
    m.name = name;
    m.kind = k;
    m.num = 0;
    m.stored = false;
    m.indexed = true;
    m.norms = false;
    m.tf = true;
    m.tv = 0;
    m.boost = 1;
    return m;
}

static MInst textInst(const wchar_t* name, sim::Rng& r, int words) {
    MInst m = base(name, MInst::STR);
    for (int i = 0; i < words; ++i) {
        if (i) {
            m.text += r.below(12) ? L" " : L"  ";
        }
        m.text += word(r);
    }
    return m;
}

static String prefixCoded(int32_t val, int shift) {
    uint32_t s = (uint32_t)val ^ 0x80000000u;
    int n = (31 - shift) / 7 + 1;
    s >>= shift;
    String out((size_t)n + 1, L' ');
    out[0] = (wchar_t)(0x60 + shift);
    for (int i = n; i >= 1; --i) {
        out[i] = (wchar_t)(s & 0x7f);
        s >>= 7;
    }
    return out;
}

static MDoc build(uint64_t uid) {
    MDoc d;
    d.uid = uid;
    sim::Rng r(sim::mix(uid, 4711));
    static const double boosts[] = {1, 1, 1, 2, 0.5, 4};
    d.boost = boosts[r.below(6)];
    MInst m = base(L"id", MInst::RAW);
    m.text = idText(uidKey(uid));
    m.stored = true;
    d.inst.push_back(m);
    m = base(L"uid", MInst::RAW);
    m.text = L"u" + wide(std::to_string(uid));
    m.stored = true;
    d.inst.push_back(m);
    m = base(L"grp", MInst::RAW);
    m.text = grpText(uidThread(uid), groupOf(uid));
    m.tf = false;
    d.inst.push_back(m);
    int len = (int)r.below(8) + 1;
    if (g_rich == 0 || g_rich == 3) {
        len = (int)r.below(3) + 1;
    } else if (r.below(g_rich == 2 ? 6 : 40) == 0) {
        len = 60 + (int)r.below(200);
    }
    m = textInst(L"body", r, len);
    m.norms = true;
    m.boost = boosts[r.below(6)];
    m.stored = r.below(2);
    m.tv = r.below(3) ? (int)r.below(5) : 0;
    d.inst.push_back(m);
    if (g_rich == 0 && r.below(3)) {
        // small document
    } else {
        for (int k = 0; k < 3; ++k) {
            if (g_rich != 3 && r.below(3) == 0) {
                static const wchar_t* names[] = {L"opt0", L"opt1", L"opt2"};
                m = textInst(names[k], r, 1 + (int)r.below(3));
                m.tv = r.below(4) == 0 ? 4 : 0;
                d.inst.push_back(m);
            }
        }
        if (r.below(5) < 2 || g_rich == 3) {
            bool even = r.below(2); // all payloads have the same length
            m = base(L"pay", MInst::TOKENS);
            int n = 1 + (int)r.below(5);
            int off = 0;
            for (int i = 0; i < n; ++i) {
                MTok t;
                t.term = word(r);
                t.inc = i == 0 ? 1 : (r.below(4) == 0 ? 0 : (r.below(4) == 0 ? 3 : 1));
                t.so = off;
                t.eo = off + (int)t.term.size();
                off = t.eo + 1;
                t.hasPay = r.below(3) != 0 || (even && g_rich == 3);
                if (t.hasPay) {
                    int pl = (int)r.below(6);
                    if (r.below(30) == 0) {
                        pl = 40;
                    }
                    if (even) {
                        pl = 2;
                    }
                    if (pl == 0) {
                        t.hasPay = false;
                    }
                    for (int b = 0; b < pl; ++b) {
                        t.pay += (char)r.below(256);
                    }
                }
                m.toks.push_back(t);
            }
            m.norms = true;
            d.inst.push_back(m);
        }
        if (r.below(3) == 0) {
            m = base(L"bin", MInst::BIN);
            m.indexed = false;
            m.stored = true;
            int n = (int)r.below(40);
            if (r.below(g_rich == 2 ? 6 : 30) == 0) {
                n = 1000 + (int)r.below(3000);
            }
            for (int i = 0; i < n; ++i) {
                m.bin += (char)r.below(256);
            }
            d.inst.push_back(m);
        }
        int mul = (int)r.below(4);
        for (int k = 0; k < mul; ++k) {
            m = textInst(L"mul", r, (int)r.below(4));
            m.norms = true;
            m.stored = true;
            m.tv = uid & 1 ? 4 : 0;
            m.boost = boosts[r.below(6)];
            d.inst.push_back(m);
        }
    }
    m = base(L"num", MInst::NUM);
    m.num = numOf(uid);
    m.tf = false;
    d.inst.push_back(m);
    m = base(L"srt", MInst::RAW);
    m.text = L"s" + wide(std::to_string(r.below(9)));
    d.inst.push_back(m);
    return d;
}

static std::map<uint64_t, MDoc>& docCache() {
    static std::map<uint64_t, MDoc>* m = new std::map<uint64_t, MDoc>();
    return *m;
}
static std::map<uint64_t, MInv>& invCache() {
    static std::map<uint64_t, MInv>* m = new std::map<uint64_t, MInv>();
    return *m;
}

const MDoc& model(uint64_t uid) {
    sim::NoOom no;
    std::map<uint64_t, MDoc>::iterator it = docCache().find(uid);
    if (it == docCache().end()) {
        it = docCache().insert(std::make_pair(uid, build(uid))).first;
    }
    return it->second;
}

static std::vector<MTok> instTokens(const MInst& m) {
    std::vector<MTok> out;
    if (m.kind == MInst::RAW) {
        MTok t;
        t.term = m.text;
        t.inc = 1;
        t.so = 0;
        t.eo = (int)m.text.size();
        t.hasPay = false;
        out.push_back(t);
    } else if (m.kind == MInst::TOKENS) {
        out = m.toks;
    } else if (m.kind == MInst::STR) {
        size_t i = 0;
        while (i < m.text.size()) {
            if (m.text[i] == L' ') {
                ++i;
                continue;
            }
            size_t j = i;
            while (j < m.text.size() && m.text[j] != L' ') {
                ++j;
            }
            MTok t;
            t.term = m.text.substr(i, j - i);
            t.inc = 1;
            t.so = (int)i;
            t.eo = (int)j;
            t.hasPay = false;
            out.push_back(t);
            i = j;
        }
    } else if (m.kind == MInst::NUM) {
        for (int shift = 0; shift < 32; shift += 4) {
            MTok t;
            t.term = prefixCoded((int32_t)m.num, shift);
            t.inc = shift == 0 ? 1 : 0;
            t.so = t.eo = 0;
            t.hasPay = false;
            out.push_back(t);
        }
    }
    return out;
}

const MInv& inverted(uint64_t uid) {
    sim::NoOom no;
    std::map<uint64_t, MInv>::iterator it = invCache().find(uid);
    if (it != invCache().end()) {
        return it->second;
    }
    MInv inv;
    const MDoc& d = model(uid);
    struct St {
        int pos = 0, off = 0, len = 0;
    };
    std::map<String, St> st;
    for (size_t i = 0; i < d.inst.size(); ++i) {
        const MInst& m = d.inst[i];
        if (!m.indexed) {
            continue;
        }
        bool first = !st.count(m.name);
        St& s = st[m.name];
        FieldLen& fl = inv.fields[m.name];
        if (first) {
            fl.boost = d.boost;
            fl.norms = m.norms;
        }
        std::vector<MTok> toks = instTokens(m);
        for (size_t k = 0; k < toks.size(); ++k) {
            s.pos += toks[k].inc;
            if (s.pos > 0) {
                --s.pos;
            }
            if (toks[k].inc == 0) {
                ++fl.overlap;
            }
            Posting& p = inv.terms[std::make_pair(m.name, toks[k].term)];
            p.tf = m.tf;
            ++p.freq;
            p.pos.push_back(std::make_pair(s.pos, toks[k].hasPay ? "\x01" + toks[k].pay : std::string()));
            p.offs.push_back(std::make_pair(s.off + toks[k].so, s.off + toks[k].eo));
            ++s.pos;
            ++s.len;
        }
        bool any = !toks.empty();
        if (m.kind == MInst::RAW) {
            any = !m.text.empty();
            s.off += (int)m.text.size();
        } else if (m.kind == MInst::STR) {
            s.off += (int)m.text.size();
        } else if (any) {
            s.off += toks.back().eo;
        }
        if (any && (m.kind == MInst::STR)) {
            s.off += 1;
        }
        fl.length = s.len;
        fl.boost *= m.boost;
        if (m.tv) {
            fl.tv |= 1 | (m.tv == 2 || m.tv == 4 ? 2 : 0) | (m.tv == 3 || m.tv == 4 ? 4 : 0);
        }
    }
    return invCache().insert(std::make_pair(uid, inv)).first->second;
}

ModelTokenStream::ModelTokenStream(const std::vector<MTok>& t, int throwAt) : toks(t), upto(0), throwAt(throwAt) {
    termAtt = addAttribute<TermAttribute>();
    posAtt = addAttribute<PositionIncrementAttribute>();
    offAtt = addAttribute<OffsetAttribute>();
    payAtt = addAttribute<PayloadAttribute>();
}

bool ModelTokenStream::incrementToken() {
    if (throwAt >= 0 && upto == throwAt) {
        boost::throw_exception(IOException(L"injected token stream failure"));
    }
    if (upto >= (int)toks.size()) {
        return false;
    }
    clearAttributes();
    const MTok& t = toks[upto++];
    termAtt->setTermBuffer(t.term);
    posAtt->setPositionIncrement(t.inc);
    offAtt->setOffset(t.so, t.eo);
    if (t.hasPay) {
        ByteArray b = ByteArray::newInstance((int32_t)t.pay.size());
        memcpy(b.get(), t.pay.data(), t.pay.size());
        payAtt->setPayload(newLucene<Payload>(b));
    }
    return true;
}

static Field::TermVector tvOf(int tv) {
    switch (tv) {
    case 1: return Field::TERM_VECTOR_YES;
    case 2: return Field::TERM_VECTOR_WITH_POSITIONS;
    case 3: return Field::TERM_VECTOR_WITH_OFFSETS;
    case 4: return Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS;
    }
    return Field::TERM_VECTOR_NO;
}

static void addInst(const DocumentPtr& doc, const MInst& m) {
    FieldPtr f;
    switch (m.kind) {
    case MInst::RAW:
        f = newLucene<Field>(m.name, m.text, m.stored ? Field::STORE_YES : Field::STORE_NO, m.norms ? Field::INDEX_NOT_ANALYZED : Field::INDEX_NOT_ANALYZED_NO_NORMS, tvOf(m.tv));
        break;
    case MInst::STR:
        f = newLucene<Field>(m.name, m.text, m.stored ? Field::STORE_YES : Field::STORE_NO, m.norms ? Field::INDEX_ANALYZED : Field::INDEX_ANALYZED_NO_NORMS, tvOf(m.tv));
        break;
    case MInst::TOKENS:
        f = newLucene<Field>(m.name, newLucene<ModelTokenStream>(m.toks), tvOf(m.tv));
        break;
    case MInst::BIN: {
        ByteArray b = ByteArray::newInstance((int32_t)m.bin.size());
        if (!m.bin.empty()) {
            memcpy(b.get(), m.bin.data(), m.bin.size());
        }
        f = newLucene<Field>(m.name, b, Field::STORE_YES);
        break;
    }
    case MInst::NUM: {
        NumericFieldPtr n = newLucene<NumericField>(m.name, 4, Field::STORE_NO, true);
        n->setIntValue((int32_t)m.num);
        doc->add(n);
        return;
    }
    }
    if (m.boost != 1) {
        f->setBoost(m.boost);
    }
    if (!m.tf) {
        f->setOmitTermFreqAndPositions(true);
    }
    doc->add(f);
}

DocumentPtr makeDoc(uint64_t uid) {
    const MDoc& d = model(uid);
    DocumentPtr doc = newLucene<Document>();
    doc->setBoost(d.boost);
    for (size_t i = 0; i < d.inst.size(); ++i) {
        addInst(doc, d.inst[i]);
    }
    return doc;
}

DocumentPtr makeThrowingDoc(uint64_t uid, int after, int where) {
    const MDoc& d = model(uid);
    DocumentPtr doc = newLucene<Document>();
    doc->setBoost(d.boost);
    std::vector<MTok> toks;
    for (int i = 0; i < after + 2; ++i) {
        MTok t;
        t.term = L"zzfail" + wide(std::to_string(i % 3));
        t.inc = 1;
        t.so = i;
        t.eo = i + 1;
        t.hasPay = i & 1;
        t.pay = "x";
        toks.push_back(t);
    }
    size_t at = (size_t)where % (d.inst.size() + 1);
    for (size_t i = 0; i <= d.inst.size(); ++i) {
        if (i == at) {
            doc->add(newLucene<Field>(where & 64 ? L"pay" : L"fail", newLucene<ModelTokenStream>(toks, after), where & 32 ? Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS : Field::TERM_VECTOR_NO));
        }
        if (i < d.inst.size()) {
            addInst(doc, d.inst[i]);
        }
    }
    return doc;
}

std::string excText(const LuceneException& e) {
    return "exception type " + std::to_string((int)e.getType()) + ": " + narrow(e.getError()).substr(0, 300);
}

void noThrow(const std::string& ctx, const std::function<void()>& fn) {
    try {
        fn();
    } catch (LuceneException& e) {
        sim::violation("unexpected-exception", ctx + ": " + excText(e));
    } catch (std::exception& e) {
        sim::violation("unexpected-exception", ctx + ": " + e.what());
    }
}

static uint64_t parseUid(const String& s, const char* ctx) {
    if (s.size() < 2 || s[0] != L'u') {
        sim::violation("garbled-document", std::string(ctx) + ": stored uid is '" + narrow(s) + "'");
    }
    uint64_t v = 0;
    for (size_t i = 1; i < s.size(); ++i) {
        if (s[i] < L'0' || s[i] > L'9') {
            sim::violation("garbled-document", std::string(ctx) + ": stored uid is '" + narrow(s) + "'");
        }
        v = v * 10 + (uint64_t)(s[i] - L'0');
    }
    return v;
}

Snapshot readState(const IndexReaderPtr& r) {
    Snapshot s;
    s.maxDoc = r->maxDoc();
    int nd = r->numDocs();
    for (int i = 0; i < s.maxDoc; ++i) {
        if (r->isDeleted(i)) {
            continue;
        }
        DocumentPtr d = r->document(i);
        s.uids.push_back(parseUid(d->get(L"uid"), "readState"));
        s.docs.push_back(i);
    }
    if (nd != (int)s.uids.size()) {
        sim::violation("numdocs-mismatch", "numDocs()=" + std::to_string(nd) + " but " + std::to_string(s.uids.size()) + " documents are not deleted");
    }
    return s;
}

void expectSeq(const std::vector<uint64_t>& got, const std::vector<uint64_t>& want, const char* cls, const std::string& ctx) {
    if (got != want) {
        std::string d;
        std::multiset<uint64_t> g(got.begin(), got.end()), w(want.begin(), want.end());
        if (g == w) {
            d = "same documents in another order";
        } else {
            for (uint64_t x : w) {
                if (g.count(x) < w.count(x)) {
                    d += " missing " + uidStr(x);
                    break;
                }
            }
            for (uint64_t x : g) {
                if (w.count(x) < g.count(x)) {
                    d += " extra " + uidStr(x);
                    break;
                }
            }
        }
        sim::violation(cls, ctx + ":" + d + "; got " + seqStr(got) + " want " + seqStr(want));
    }
}

static void bad(const char* cls, const char* ctx, const std::string& m) {
    sim::violation(cls, std::string(ctx) + ": " + m);
}

static void checkStored(const IndexReaderPtr& r, const Snapshot& s, const char* ctx) {
    for (size_t k = 0; k < s.docs.size(); ++k) {
        DocumentPtr d = r->document(s.docs[k]);
        const MDoc& m = model(s.uids[k]);
        Collection<FieldablePtr> fs = d->getFields();
        size_t at = 0;
        for (size_t i = 0; i < m.inst.size(); ++i) {
            if (!m.inst[i].stored) {
                continue;
            }
            if ((int)at >= fs.size()) {
                bad("stored-field", ctx, "document " + uidStr(s.uids[k]) + " lacks stored field " + narrow(m.inst[i].name));
            }
            FieldablePtr f = fs[(int)at++];
            if (f->name() != m.inst[i].name) {
                bad("stored-field", ctx, "document " + uidStr(s.uids[k]) + " has stored field " + narrow(f->name()) + " where " + narrow(m.inst[i].name) + " belongs");
            }
            if (m.inst[i].kind == MInst::BIN) {
                if (!f->isBinary() || f->getBinaryLength() != (int)m.inst[i].bin.size() || (!m.inst[i].bin.empty() && memcmp(f->getBinaryValue().get() + f->getBinaryOffset(), m.inst[i].bin.data(), m.inst[i].bin.size()) != 0)) {
                    bad("stored-field", ctx, "binary field of " + uidStr(s.uids[k]) + " differs");
                }
            } else if (f->stringValue() != m.inst[i].text) {
                bad("stored-field", ctx, "field " + narrow(m.inst[i].name) + " of " + uidStr(s.uids[k]) + " is '" + narrow(f->stringValue()).substr(0, 80) + "' not '" + narrow(m.inst[i].text).substr(0, 80) + "'");
            }
        }
        if ((int)at != fs.size()) {
            bad("stored-field", ctx, "document " + uidStr(s.uids[k]) + " has extra stored field " + narrow(fs[(int)at]->name()));
        }
    }
}

static std::string bytesHex(const std::string& b) {
    std::string o;
    for (size_t i = 0; i < b.size() && i < 20; ++i) {
        char t[4];
        snprintf(t, sizeof t, "%02x", (unsigned char)b[i]);
        o += t;
    }
    return o;
}

typedef std::map<std::pair<String, String>, std::vector<std::pair<int, const Posting*>>> Index;

static void buildIndex(const Snapshot& s, Index& idx) {
    for (size_t k = 0; k < s.docs.size(); ++k) {
        const MInv& inv = inverted(s.uids[k]);
        for (Inverted::const_iterator it = inv.terms.begin(); it != inv.terms.end(); ++it) {
            idx[it->first].push_back(std::make_pair(s.docs[k], &it->second));
        }
    }
}

static void checkPositions(const TermPositionsPtr& tp, const Posting& p, const char* ctx, const std::string& what, sim::Rng& rng) {
    if (!p.tf) {
        if (tp->freq() != 1) {
            bad("postings", ctx, what + " freq of a field without frequencies is " + std::to_string(tp->freq()));
        }
        return;
    }
    if (tp->freq() != p.freq) {
        bad("postings", ctx, what + " freq is " + std::to_string(tp->freq()) + " not " + std::to_string(p.freq));
    }
    int n = p.freq;
    if (rng.below(5) == 0) {
        n = (int)rng.below((uint64_t)p.freq + 1); // leave some positions unread: the next one must skip them
    }
    for (int i = 0; i < n; ++i) {
        int pos = tp->nextPosition();
        if (pos != p.pos[i].first) {
            bad("postings", ctx, what + " position " + std::to_string(i) + " is " + std::to_string(pos) + " not " + std::to_string(p.pos[i].first));
        }
        if (rng.below(6) == 0) {
            continue; // payload not read: must be skipped
        }
        bool avail = tp->isPayloadAvailable();
        std::string got;
        if (avail) {
            int pl = tp->getPayloadLength();
            got = "\x01";
            if (pl > 0) {
                ByteArray b = tp->getPayload(ByteArray(), 0);
                got.append((const char*)b.get(), (size_t)pl);
            }
        }
        if (got != p.pos[i].second) {
            bad("payload", ctx, what + " payload at position " + std::to_string(pos) + " is " + bytesHex(got) + " not " + bytesHex(p.pos[i].second));
        }
    }
}

static void checkTerms(const IndexReaderPtr& r, const Snapshot& s, int bits, sim::Rng& rng, const char* ctx) {
    Index idx;
    buildIndex(s, idx);
    TermEnumPtr te = r->terms();
    Index::iterator want = idx.begin();
    bool first = true;
    std::pair<String, String> prev;
    bool hasDel = r->hasDeletions();
    std::vector<std::pair<String, String>> all;
    while (te->next()) {
        TermPtr t = te->term();
        std::pair<String, String> key(t->field(), t->text());
        if (!first && !(prev < key)) {
            bad("term-order", ctx, "term " + narrow(key.first) + ":" + narrow(key.second) + " follows " + narrow(prev.first) + ":" + narrow(prev.second));
        }
        first = false;
        prev = key;
        all.push_back(key);
        if (want != idx.end() && want->first < key) {
            bad("term-missing", ctx, "term " + narrow(want->first.first) + ":" + narrow(want->first.second) + " of " + std::to_string(want->second.size()) + " live documents is not enumerated");
        }
        static const std::vector<std::pair<int, const Posting*>> none;
        const std::vector<std::pair<int, const Posting*>>* ps = &none;
        if (want != idx.end() && want->first == key) {
            ps = &want->second;
            ++want;
        } else if (!hasDel && key.first != L"fail" && key.second.compare(0, 6, L"zzfail") != 0) {
            bad("term-extra", ctx, "term " + narrow(key.first) + ":" + narrow(key.second) + " belongs to no document");
        }
        std::string what = "term " + narrow(key.first) + ":" + narrow(key.second);
        int df = te->docFreq();
        if (df < (int)ps->size() || df > r->maxDoc() || df <= 0) {
            bad("docfreq", ctx, what + " docFreq " + std::to_string(df) + " with " + std::to_string(ps->size()) + " live documents");
        }
        if (!hasDel && !(df == (int)ps->size())) {
            bad("docfreq", ctx, what + " docFreq " + std::to_string(df) + " with " + std::to_string(ps->size()) + " documents and no deletions");
        }
        TermPositionsPtr tp = r->termPositions();
        bool viaEnum = rng.below(2);
        if (viaEnum) {
            tp->seek(te);
        } else {
            tp->seek(t);
        }
        size_t k = 0;
        int last = -1;
        while (tp->next()) {
            int doc = tp->doc();
            if (doc <= last) {
                bad("postings", ctx, what + " documents out of order");
            }
            last = doc;
            if (k >= ps->size() || (*ps)[k].first != doc) {
                bad("postings", ctx, what + " lists document " + std::to_string(doc) + " (deleted: " + std::to_string((int)r->isDeleted(doc)) + "), next expected is " + (k < ps->size() ? std::to_string((*ps)[k].first) : std::string("none")));
            }
            checkPositions(tp, *(*ps)[k].second, ctx, what + " doc " + std::to_string(doc), rng);
            ++k;
        }
        if (k != ps->size()) {
            bad("postings", ctx, what + " lacks document " + std::to_string((*ps)[k].first));
        }
        if ((bits & V_SEEK) && ps->size() > 2 && rng.below(4) == 0) {
            // skipTo, mixed with next() and with positions and payloads that are read in part or not at all
            bool withPos = rng.below(3) != 0;
            TermPositionsPtr tp2 = withPos ? r->termPositions(t) : TermPositionsPtr();
            TermDocsPtr td = withPos ? boost::static_pointer_cast<TermDocs>(tp2) : r->termDocs(t);
            int cur = -1;
            int jump = 1 + (int)rng.below((uint64_t)std::max(2, r->maxDoc() / 2));
            for (int tries = 0; tries < 12; ++tries) {
                bool nx = rng.below(4) == 0;
                int target = nx ? cur + 1 : cur + 1 + (int)rng.below((uint64_t)jump);
                bool ok = nx ? td->next() : td->skipTo(target);
                int exp = -1;
                const Posting* po = nullptr;
                std::vector<std::pair<int, const Posting*>>::const_iterator q = std::lower_bound(ps->begin(), ps->end(), target, [](const std::pair<int, const Posting*>& x, int v) { return x.first < v; });
                if (q != ps->end()) {
                    exp = q->first;
                    po = q->second;
                }
                if (ok != (exp >= 0) || (ok && td->doc() != exp)) {
                    bad("skipto", ctx, what + (nx ? " next() instead of skipTo(" : " skipTo(") + std::to_string(target) + ") " + (ok ? "gives " + std::to_string(td->doc()) : std::string("finds nothing")) + ", expected " + std::to_string(exp));
                }
                if (!ok) {
                    break;
                }
                cur = td->doc();
                if (withPos && rng.below(3)) {
                    checkPositions(tp2, *po, ctx, what + " doc " + std::to_string(cur) + " after skipTo", rng);
                }
            }
        }
    }
    if (want != idx.end()) {
        bad("term-missing", ctx, "term " + narrow(want->first.first) + ":" + narrow(want->first.second) + " of " + std::to_string(want->second.size()) + " live documents is not enumerated");
    }
    if (bits & V_SEEK) {
        for (int i = 0; i < 6 && !all.empty(); ++i) {
            std::pair<String, String> k = all[rng.below(all.size())];
            if (rng.below(3) == 0) {
                k.second += rng.below(2) ? L"a" : L"\uff00";
            }
            if (rng.below(8) == 0) {
                k.second = L"";
            }
            std::vector<std::pair<String, String>>::iterator lb = std::lower_bound(all.begin(), all.end(), k);
            TermEnumPtr e = r->terms(newLucene<Term>(k.first, k.second));
            TermPtr t = e->term();
            if (lb == all.end() ? (bool)t : (!t || t->field() != lb->first || t->text() != lb->second)) {
                bad("term-seek", ctx, "seek to " + narrow(k.first) + ":" + narrow(k.second) + " gives " + (t ? narrow(t->field()) + ":" + narrow(t->text()) : std::string("nothing")) + ", expected " + (lb == all.end() ? std::string("nothing") : narrow(lb->first) + ":" + narrow(lb->second)));
            }
        }
    }
}

static const NormOverrides* g_norms = nullptr;
void setNormOverrides(const NormOverrides* n) {
    g_norms = n;
}
const wchar_t* normField(int f) {
    static const wchar_t* fields[] = {L"body", L"mul", L"pay"};
    return fields[f];
}
bool hasNormField(uint64_t uid, int f) {
    return inverted(uid).fields.count(normField(f)) != 0;
}

static void checkNorms(const IndexReaderPtr& r, const Snapshot& s, const char* ctx) {
    static const wchar_t* fields[] = {L"body", L"mul", L"pay"};
    for (int f = 0; f < 3; ++f) {
        bool any = false;
        for (size_t k = 0; k < s.docs.size() && !any; ++k) {
            any = inverted(s.uids[k]).fields.count(fields[f]);
        }
        if (!any) {
            continue;
        }
        ByteArray n = r->norms(fields[f]);
        if (!n) {
            bad("norms", ctx, "no norms for field " + narrow(fields[f]));
        }
        for (size_t k = 0; k < s.docs.size(); ++k) {
            const MInv& inv = inverted(s.uids[k]);
            std::map<String, FieldLen>::const_iterator it = inv.fields.find(fields[f]);
            if (it == inv.fields.end()) {
                continue;
            }
            int len = it->second.length;
            double v = it->second.boost * (1.0 / sqrt((double)len));
            uint8_t want = Similarity::encodeNorm(v);
            if (g_norms) {
                NormOverrides::const_iterator o = g_norms->find(std::make_pair(s.uids[k], f));
                if (o != g_norms->end()) {
                    want = o->second;
                }
            }
            if (n[s.docs[k]] != want) {
                bad("norms", ctx, "norm of " + narrow(fields[f]) + " of document " + uidStr(s.uids[k]) + " is " + std::to_string(n[s.docs[k]]) + " not " + std::to_string(want));
            }
        }
    }
}

static void checkVectors(const IndexReaderPtr& r, const Snapshot& s, const char* ctx) {
    for (size_t k = 0; k < s.docs.size(); ++k) {
        const MInv& inv = inverted(s.uids[k]);
        std::string who = "document " + uidStr(s.uids[k]);
        std::map<String, int> exp;
        for (std::map<String, FieldLen>::const_iterator f = inv.fields.begin(); f != inv.fields.end(); ++f) {
            if (f->second.tv && f->second.length > 0) {
                exp[f->first] = f->second.tv;
            }
        }
        Collection<TermFreqVectorPtr> vs = r->getTermFreqVectors(s.docs[k]);
        int n = vs ? vs.size() : 0;
        if (n != (int)exp.size()) {
            bad("term-vector", ctx, who + " has " + std::to_string(n) + " term vectors, expected " + std::to_string(exp.size()));
        }
        for (int i = 0; i < n; ++i) {
            TermFreqVectorPtr v = vs[i];
            String fn = v->getField();
            if (!exp.count(fn)) {
                bad("term-vector", ctx, who + " has a term vector of field " + narrow(fn));
            }
            int tv = exp[fn];
            std::vector<std::pair<String, const Posting*>> want;
            for (Inverted::const_iterator it = inv.terms.lower_bound(std::make_pair(fn, String())); it != inv.terms.end() && it->first.first == fn; ++it) {
                want.push_back(std::make_pair(it->first.second, &it->second));
            }
            Collection<String> terms = v->getTerms();
            Collection<int32_t> freqs = v->getTermFrequencies();
            if (terms.size() != (int)want.size()) {
                bad("term-vector", ctx, who + " vector of " + narrow(fn) + " has " + std::to_string(terms.size()) + " terms, expected " + std::to_string(want.size()));
            }
            TermPositionVectorPtr pv = boost::dynamic_pointer_cast<TermPositionVector>(v);
            if ((tv & 6) && !pv) {
                bad("term-vector", ctx, who + " vector of " + narrow(fn) + " has no positions or offsets");
            }
            for (size_t t = 0; t < want.size(); ++t) {
                if (terms[(int)t] != want[t].first || freqs[(int)t] != want[t].second->freq) {
                    bad("term-vector", ctx, who + " vector of " + narrow(fn) + " term " + std::to_string(t) + " is " + narrow(terms[(int)t]) + " x" + std::to_string(freqs[(int)t]) + ", expected " + narrow(want[t].first) + " x" + std::to_string(want[t].second->freq));
                }
                if (tv & 2) {
                    Collection<int32_t> ps = pv->getTermPositions((int)t);
                    if (ps.size() != want[t].second->freq) {
                        bad("term-vector", ctx, who + " vector positions of " + narrow(fn) + ":" + narrow(want[t].first) + " count " + std::to_string(ps.size()));
                    }
                    for (int q = 0; q < ps.size(); ++q) {
                        if (ps[q] != want[t].second->pos[q].first) {
                            bad("term-vector", ctx, who + " vector position of " + narrow(fn) + ":" + narrow(want[t].first) + " is " + std::to_string(ps[q]) + " not " + std::to_string(want[t].second->pos[q].first));
                        }
                    }
                }
                if (tv & 4) {
                    Collection<TermVectorOffsetInfoPtr> os = pv->getOffsets((int)t);
                    if (os.size() != want[t].second->freq) {
                        bad("term-vector", ctx, who + " vector offsets of " + narrow(fn) + ":" + narrow(want[t].first) + " count " + std::to_string(os.size()));
                    }
                    for (int q = 0; q < os.size(); ++q) {
                        if (os[q]->getStartOffset() != want[t].second->offs[q].first || os[q]->getEndOffset() != want[t].second->offs[q].second) {
                            bad("term-vector", ctx, who + " vector offset of " + narrow(fn) + ":" + narrow(want[t].first) + " is " + std::to_string(os[q]->getStartOffset()) + "-" + std::to_string(os[q]->getEndOffset()) + " not " + std::to_string(want[t].second->offs[q].first) + "-" + std::to_string(want[t].second->offs[q].second));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- queries
static bool hasTerm(uint64_t uid, const String& f, const String& t) {
    const MInv& inv = inverted(uid);
    return inv.terms.count(std::make_pair(f, t)) != 0;
}

static bool hasPhrase(uint64_t uid, const String& f, const String& a, const String& b, int gap) {
    const MInv& inv = inverted(uid);
    Inverted::const_iterator x = inv.terms.find(std::make_pair(f, a)), y = inv.terms.find(std::make_pair(f, b));
    if (x == inv.terms.end() || y == inv.terms.end()) {
        return false;
    }
    std::set<int> ys;
    for (size_t i = 0; i < y->second.pos.size(); ++i) {
        ys.insert(y->second.pos[i].first);
    }
    for (size_t i = 0; i < x->second.pos.size(); ++i) {
        if (ys.count(x->second.pos[i].first + gap)) {
            return true;
        }
    }
    return false;
}

static bool anyTerm(uint64_t uid, const String& f, const std::function<bool(const String&)>& p) {
    const MInv& inv = inverted(uid);
    for (Inverted::const_iterator it = inv.terms.lower_bound(std::make_pair(f, String())); it != inv.terms.end() && it->first.first == f; ++it) {
        if (p(it->first.second)) {
            return true;
        }
    }
    return false;
}

static void pickTerm(sim::Rng& rng, const std::vector<uint64_t>& u, const wchar_t* field, String& text) {
    for (int i = 0; i < 4 && !u.empty(); ++i) {
        const MInv& inv = inverted(u[rng.below(u.size())]);
        std::vector<String> c;
        for (Inverted::const_iterator it = inv.terms.lower_bound(std::make_pair(String(field), String())); it != inv.terms.end() && it->first.first == field; ++it) {
            c.push_back(it->first.second);
        }
        if (!c.empty()) {
            text = c[rng.below(c.size())];
            return;
        }
    }
    text = word(rng);
}

RandQuery randQuery(sim::Rng& rng, const std::vector<uint64_t>& u, int depth) {
    static const wchar_t* fields[] = {L"body", L"body", L"mul", L"opt0", L"opt1", L"pay", L"grp", L"srt", L"id"};
    RandQuery q;
    int k = (int)rng.below(depth < 2 ? 8 : 6);
    switch (k) {
    case 1: { // phrase
        String f = rng.below(4) ? L"body" : L"mul", a, b;
        int gap = 1;
        pickTerm(rng, u, f.c_str(), a);
        b = word(rng);
        for (int i = 0; i < 3 && !u.empty(); ++i) {
            const MInv& inv = inverted(u[rng.below(u.size())]);
            std::map<int, String> at;
            for (Inverted::const_iterator it = inv.terms.lower_bound(std::make_pair(f, String())); it != inv.terms.end() && it->first.first == f; ++it) {
                for (size_t z = 0; z < it->second.pos.size(); ++z) {
                    at[it->second.pos[z].first] = it->first.second;
                }
            }
            if (at.size() >= 2) {
                int p = (int)rng.below(at.size() - 1);
                a = at[p];
                gap = 1;
                if (p + 2 < (int)at.size() && rng.below(3) == 0) {
                    gap = 2;
                }
                b = at[p + gap];
                break;
            }
        }
        PhraseQueryPtr pq = newLucene<PhraseQuery>();
        pq->add(newLucene<Term>(f, a), 0);
        pq->add(newLucene<Term>(f, b), gap);
        q.q = pq;
        q.match = [f, a, b, gap](uint64_t uid) { return hasPhrase(uid, f, a, b, gap); };
        q.text = "phrase " + narrow(f) + ":\"" + narrow(a) + " " + narrow(b) + "\" gap " + std::to_string(gap);
        return q;
    }
    case 2: { // numeric range
        int th = u.empty() ? 0 : uidThread(u[rng.below(u.size())]);
        int lo = th * 1000 + (int)rng.below(64), hi = lo + (int)rng.below(40);
        bool li = rng.below(2), ui = rng.below(2);
        q.q = NumericRangeQuery::newIntRange(L"num", 4, lo, hi, li, ui);
        q.match = [=](uint64_t uid) { int v = numOf(uid); return (li ? v >= lo : v > lo) && (ui ? v <= hi : v < hi); };
        q.text = "num " + std::to_string(lo) + (li ? "<=" : "<") + ".." + (ui ? "<=" : "<") + std::to_string(hi);
        return q;
    }
    case 3: { // prefix
        String f = fields[rng.below(9)], t;
        pickTerm(rng, u, f.c_str(), t);
        String pre = t.substr(0, 1 + rng.below(t.size()));
        q.q = newLucene<PrefixQuery>(newLucene<Term>(f, pre));
        q.match = [f, pre](uint64_t uid) { return anyTerm(uid, f, [&](const String& x) { return x.compare(0, pre.size(), pre) == 0; }); };
        q.text = "prefix " + narrow(f) + ":" + narrow(pre);
        return q;
    }
    case 4: { // term range
        String f = fields[rng.below(9)], a, b;
        pickTerm(rng, u, f.c_str(), a);
        pickTerm(rng, u, f.c_str(), b);
        if (b < a) {
            std::swap(a, b);
        }
        bool li = rng.below(2), ui = rng.below(2);
        q.q = newLucene<TermRangeQuery>(f, a, b, li, ui);
        q.match = [=](uint64_t uid) { return anyTerm(uid, f, [&](const String& x) { return (li ? x >= a : x > a) && (ui ? x <= b : x < b); }); };
        q.text = "range " + narrow(f) + ":" + narrow(a) + ".." + narrow(b);
        return q;
    }
    case 5: { // wildcard: one character replaced
        String f = fields[rng.below(9)], t;
        pickTerm(rng, u, f.c_str(), t);
        size_t p = rng.below(t.size());
        String w = t;
        w[p] = L'?';
        q.q = newLucene<WildcardQuery>(newLucene<Term>(f, w));
        q.match = [=](uint64_t uid) {
            return anyTerm(uid, f, [&](const String& x) {
                if (x.size() != t.size()) {
                    return false;
                }
                for (size_t i = 0; i < x.size(); ++i) {
                    if (i != p && x[i] != t[i]) {
                        return false;
                    }
                }
                return true;
            });
        };
        q.text = "wildcard " + narrow(f) + ":" + narrow(w);
        return q;
    }
    case 6:
    case 7: { // boolean
        BooleanQueryPtr bq = newLucene<BooleanQuery>();
        int n = 2 + (int)rng.below(3);
        std::vector<RandQuery> subs;
        std::vector<int> occ;
        bool positive = false;
        for (int i = 0; i < n; ++i) {
            subs.push_back(randQuery(rng, u, depth + 1));
            int o = (int)rng.below(5);
            o = o < 2 ? 0 : o < 4 ? 1 : 2; // must, should, must not
            if (i == n - 1 && !positive) {
                o = (int)rng.below(2);
            }
            positive |= o != 2;
            occ.push_back(o);
            bq->add(subs[i].q, o == 0 ? BooleanClause::MUST : o == 1 ? BooleanClause::SHOULD : BooleanClause::MUST_NOT);
            q.text += (i ? " " : "(") + std::string(o == 0 ? "+" : o == 2 ? "-" : "") + "[" + subs[i].text + "]";
        }
        q.text += ")";
        q.q = bq;
        q.match = [subs, occ](uint64_t uid) {
            bool must = false, should = false;
            for (size_t i = 0; i < subs.size(); ++i) {
                bool m = subs[i].match(uid);
                if (occ[i] == 2 && m) {
                    return false;
                }
                if (occ[i] == 0) {
                    if (!m) {
                        return false;
                    }
                    must = true;
                }
                if (occ[i] == 1 && m) {
                    should = true;
                }
            }
            return must || should;
        };
        return q;
    }
    default: {
        String f = fields[rng.below(9)], t;
        pickTerm(rng, u, f.c_str(), t);
        q.q = newLucene<TermQuery>(newLucene<Term>(f, t));
        q.match = [f, t](uint64_t uid) { return hasTerm(uid, f, t); };
        q.text = narrow(f) + ":" + narrow(t);
        return q;
    }
    }
}

std::vector<int> runQuery(const SearcherPtr& s, const QueryPtr& q, int max) {
    std::vector<int> out;
    TopDocsPtr td = s->search(q, FilterPtr(), std::max(1, max));
    for (int i = 0; i < td->scoreDocs.size(); ++i) {
        out.push_back(td->scoreDocs[i]->doc);
    }
    if (td->totalHits != (int)out.size()) {
        sim::violation("query-result", "totalHits " + std::to_string(td->totalHits) + " but " + std::to_string(out.size()) + " hits returned of up to " + std::to_string(max));
    }
    std::sort(out.begin(), out.end());
    return out;
}

void checkQueries(const IndexReaderPtr& r, const Snapshot& s, int n, sim::Rng& rng, const char* ctx) {
    IndexSearcherPtr is = newLucene<IndexSearcher>(r);
    for (int i = 0; i < n; ++i) {
        RandQuery q = randQuery(rng, s.uids);
        std::vector<int> want;
        for (size_t k = 0; k < s.uids.size(); ++k) {
            if (q.match(s.uids[k])) {
                want.push_back(s.docs[k]);
            }
        }
        std::vector<int> got;
        try {
            got = runQuery(is, q.q, s.maxDoc);
        } catch (TooManyClausesException&) {
            continue;
        }
        if (got != want) {
            std::string d = "got";
            for (int x : got) d += " " + std::to_string(x);
            d += " want";
            for (int x : want) d += " " + std::to_string(x);
            bad("query-result", ctx, q.text + ": " + d.substr(0, 600));
        }
        if (rng.below(3) == 0 && s.maxDoc > 0) {
            // sorted search: order by srt then by document
            bool rev = rng.below(2);
            TopFieldDocsPtr td = is->search(q.q, FilterPtr(), s.maxDoc, newLucene<Sort>(newLucene<SortField>(L"srt", SortField::STRING, rev)));
            std::map<int, String> key;
            for (size_t k = 0; k < s.uids.size(); ++k) {
                const MDoc& m = model(s.uids[k]);
                key[s.docs[k]] = m.inst.back().text;
            }
            std::vector<int> exp = want;
            std::stable_sort(exp.begin(), exp.end(), [&](int a, int b) { return rev ? key[b] < key[a] : key[a] < key[b]; });
            std::vector<int> g2;
            for (int k = 0; k < td->scoreDocs.size(); ++k) {
                g2.push_back(td->scoreDocs[k]->doc);
            }
            if (g2 != exp) {
                std::string d = rev ? " reversed:" : ":";
                for (int x : g2) d += " " + std::to_string(x) + "=" + (key.count(x) ? narrow(key[x]) : std::string("?"));
                d += "; want";
                for (int x : exp) d += " " + std::to_string(x) + "=" + narrow(key[x]);
                if (sim::g_verbose) {
                    Collection<IndexReaderPtr> sub = r->getSequentialSubReaders();
                    for (int z = 0; sub && z < sub.size(); ++z) {
                        StringIndexPtr si = FieldCache::DEFAULT()->getStringIndex(sub[z], L"srt");
                        std::string o = "sub " + std::to_string(z) + " maxDoc " + std::to_string(sub[z]->maxDoc()) + ":";
                        for (int y = 0; y < si->order.size(); ++y) o += " " + std::to_string(si->order[y]);
                        o += " lookup";
                        for (int y = 0; y < si->lookup.size(); ++y) o += " " + narrow(si->lookup[y]);
                        sim::logf("%s", o.c_str());
                    }
                }
                bad("sorted-search", ctx, q.text + " sorted by srt gives another order" + d.substr(0, 900));
            }
        }
    }
    is->close();
}

void verifyReader(const IndexReaderPtr& r, const Snapshot& s, int bits, sim::Rng& rng, const char* ctx) {
    sim::Calm calm(bits & V_CALM);
    sim::progress();
    if (bits & V_STORED) {
        checkStored(r, s, ctx);
    }
    if (bits & V_TERMS) {
        checkTerms(r, s, bits, rng, ctx);
    }
    if (bits & V_NORMS) {
        checkNorms(r, s, ctx);
    }
    if (bits & V_VECTORS) {
        checkVectors(r, s, ctx);
    }
    if (bits & V_QUERIES) {
        checkQueries(r, s, 4, rng, ctx);
    }
    sim::stat("reader_checks");
    sim::stat("reader_docs_checked", (int64_t)s.uids.size());
}

static bool g_calmDumps = false;
void setCalmDumps(bool on) {
    g_calmDumps = on;
}
uint64_t dumpReader(const IndexReaderPtr& r, std::string* text) {
    sim::Calm calm(g_calmDumps);
    sim::progress();
    uint64_t h = 1469598103934665603ULL;
    int md = r->maxDoc(), nd = r->numDocs();
    h = hashBytes(h, &md, sizeof md);
    h = hashBytes(h, &nd, sizeof nd);
    for (int i = 0; i < md; ++i) {
        bool del = r->isDeleted(i);
        h = hashBytes(h, &del, 1);
        if (del) {
            continue;
        }
        DocumentPtr d = r->document(i);
        Collection<FieldablePtr> fs = d->getFields();
        for (int k = 0; k < fs.size(); ++k) {
            h = hashStr(h, fs[k]->name());
            if (fs[k]->isBinary()) {
                if (fs[k]->getBinaryLength()) {
                    h = hashBytes(h, fs[k]->getBinaryValue().get() + fs[k]->getBinaryOffset(), (size_t)fs[k]->getBinaryLength());
                }
            } else {
                h = hashStr(h, fs[k]->stringValue());
            }
        }
    }
    if (text) {
        *text += "stored=" + std::to_string(h) + " ";
    }
    TermEnumPtr te = r->terms();
    while (te->next()) {
        h = hashStr(h, te->term()->field());
        h = hashStr(h, te->term()->text());
        int df = te->docFreq();
        h = hashBytes(h, &df, sizeof df);
        TermPositionsPtr tp = r->termPositions(te->term());
        while (tp->next()) {
            int v[2] = {tp->doc(), tp->freq()};
            h = hashBytes(h, v, sizeof v);
            if (te->term()->field() == L"body" || te->term()->field() == L"pay") {
                for (int i = 0; i < v[1]; ++i) {
                    int p = tp->nextPosition();
                    h = hashBytes(h, &p, sizeof p);
                    if (tp->isPayloadAvailable() && tp->getPayloadLength() > 0) {
                        ByteArray b = tp->getPayload(ByteArray(), 0);
                        h = hashBytes(h, b.get(), (size_t)tp->getPayloadLength());
                    }
                }
            }
        }
    }
    if (text) {
        *text += "terms=" + std::to_string(h) + " ";
    }
    static const wchar_t* fields[] = {L"body", L"mul"};
    for (int f = 0; f < 2; ++f) {
        if (!r->hasNorms(fields[f])) {
            continue;
        }
        ByteArray n = r->norms(fields[f]);
        if (n) {
            for (int i = 0; i < md; ++i) {
                if (!r->isDeleted(i)) {
                    h = hashBytes(h, &n[i], 1);
                }
            }
        }
    }
    for (int i = 0; i < md; ++i) {
        if (r->isDeleted(i)) {
            continue;
        }
        Collection<TermFreqVectorPtr> vs = r->getTermFreqVectors(i);
        for (int k = 0; vs && k < vs.size(); ++k) {
            Collection<String> t = vs[k]->getTerms();
            for (int q = 0; q < t.size(); ++q) {
                h = hashStr(h, t[q]);
            }
        }
    }
    if (text) {
        *text += "norms+vectors=" + std::to_string(h);
    }
    return h;
}
}
