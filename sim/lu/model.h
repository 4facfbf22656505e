// Reference documents: everything about a document follows from its uid, so what an index must contain is known.
#pragma once
#include "LuceneHeaders.h"
#include "sim.h"
#include <map>
#include <set>

namespace lu {
using Lucene::String;

// uid: thread<<40 | id<<20 | version
inline uint64_t makeUid(int th, uint64_t id, uint64_t ver) { return ((uint64_t)th << 40) | (id << 20) | ver; }
inline int uidThread(uint64_t uid) { return (int)(uid >> 40); }
inline uint64_t uidId(uint64_t uid) { return (uid >> 20) & 0xFFFFF; }
inline uint64_t uidKey(uint64_t uid) { return uid >> 20; }
String wide(const std::string& s);
std::string narrow(const String& s);
String idText(uint64_t uidKey);
String grpText(int th, int g);
std::string uidStr(uint64_t uid);

struct MTok {
    String term;
    int inc, so, eo;
    bool hasPay;
    std::string pay;
};
struct MInst {
    enum Kind { STR, RAW, TOKENS, BIN, NUM };
    String name;
    Kind kind;
    String text;
    std::string bin;
    int64_t num;
    bool stored, indexed, norms, tf;
    int tv; // 0 none, 1 yes, 2 positions, 3 offsets, 4 both
    double boost;
    std::vector<MTok> toks;
};
struct MDoc {
    uint64_t uid;
    double boost;
    std::vector<MInst> inst;
};
int groupOf(uint64_t uid);   // 0..2
int numOf(uint64_t uid);     // thread*1000 + 0..63
const MDoc& model(uint64_t uid); // cached
Lucene::DocumentPtr makeDoc(uint64_t uid);
// a document whose field `pay` throws after `after` tokens
Lucene::DocumentPtr makeThrowingDoc(uint64_t uid, int after, int where);
void setCalmDumps(bool on);
void setRichDocs(int richness); // 0: small documents, 1: normal, 2: large

struct Posting {
    int freq = 0;
    bool tf = true;
    std::vector<std::pair<int, std::string>> pos; // position, payload ("\x01" + bytes when present)
    std::vector<std::pair<int, int>> offs;
};
typedef std::map<std::pair<String, String>, Posting> Inverted;
struct FieldLen {
    int length = 0;
    int overlap = 0;
    double boost = 1;
    bool norms = false;
    int tv = 0; // union: bit0 vectors, bit1 positions, bit2 offsets
};
struct MInv {
    Inverted terms;
    std::map<String, FieldLen> fields;
};
const MInv& inverted(uint64_t uid); // cached

// What a reader shows.
struct Snapshot {
    std::vector<uint64_t> uids; // live documents in docID order
    std::vector<int> docs;
    int maxDoc = 0;
};
Snapshot readState(const Lucene::IndexReaderPtr& r);         // uid of each live document, in order
enum VerifyBits { V_STORED = 1, V_TERMS = 2, V_NORMS = 4, V_VECTORS = 8, V_QUERIES = 16, V_SEEK = 32, V_ALL = 63, V_CALM = 64, V_LIGHT = V_STORED };
// compares everything the reader shows with what its documents must contain; a difference is a violation
void verifyReader(const Lucene::IndexReaderPtr& r, const Snapshot& s, int bits, sim::Rng& rng, const char* ctx);
// norms that were set explicitly: the caller keeps the map; nullptr: none
typedef std::map<std::pair<uint64_t, int>, uint8_t> NormOverrides;
void setNormOverrides(const NormOverrides* n);
const wchar_t* normField(int f); // 0..2
bool hasNormField(uint64_t uid, int f);
// hash of everything the reader shows
uint64_t dumpReader(const Lucene::IndexReaderPtr& r, std::string* text = nullptr);
void expectSeq(const std::vector<uint64_t>& got, const std::vector<uint64_t>& want, const char* cls, const std::string& ctx);
std::string seqStr(const std::vector<uint64_t>& v, size_t max = 40);
// Runs a query over the reader and compares the hits with brute force over the snapshot.
void checkQueries(const Lucene::IndexReaderPtr& r, const Snapshot& s, int n, sim::Rng& rng, const char* ctx);
struct RandQuery {
    Lucene::QueryPtr q;
    std::function<bool(uint64_t)> match;
    std::string text;
};
RandQuery randQuery(sim::Rng& rng, const std::vector<uint64_t>& universe, int depth = 0);
std::vector<int> runQuery(const Lucene::SearcherPtr& s, const Lucene::QueryPtr& q, int max);

std::string excText(const Lucene::LuceneException& e);
// fn must not throw: an exception is a violation of class "unexpected-exception"
void noThrow(const std::string& ctx, const std::function<void()>& fn);
uint64_t hashBytes(uint64_t h, const void* p, size_t n);
uint64_t hashStr(uint64_t h, const String& s);

// token stream over prepared tokens; throws before token `throwAt` when >= 0
class ModelTokenStream : public Lucene::TokenStream {
public:
    ModelTokenStream(const std::vector<MTok>& toks, int throwAt = -1);
    virtual ~ModelTokenStream() {}
    LUCENE_CLASS(ModelTokenStream);
    virtual bool incrementToken();
    virtual void reset() { upto = 0; }
    std::vector<MTok> toks;
    int upto, throwAt;
    Lucene::TermAttributePtr termAtt;
    Lucene::PositionIncrementAttributePtr posAtt;
    Lucene::OffsetAttributePtr offAtt;
    Lucene::PayloadAttributePtr payAtt;
};
}
