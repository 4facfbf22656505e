// C16: directories are byte stores. Files written by several threads through every directory implementation are
// compared with byte strings, under short transfers, interrupted calls, slow and failing disks.
#include "model.h"
#include "plan.h"
#include <memory>
#include <boost/crc.hpp>
#include "RAMDirectory.h"
#include "MMapDirectory.h"
#include "SimpleFSDirectory.h"
#include "FileSwitchDirectory.h"
#include "CompoundFileReader.h"
#include "CompoundFileWriter.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "BufferedIndexOutput.h"
#include "ChecksumIndexInput.h"
#include "ChecksumIndexOutput.h"
using namespace lu;
using namespace Lucene;

namespace {
enum StoreOp { S_WRITE = 1, S_READ, S_SHARED, S_DELETE, S_META, S_COPY, S_CFS, S_RAMCOPY, S_OVERWRITE, S_CHECKSUM, S_SYNC };
const char* storeOpName(int k) {
    static const char* n[] = {"?", "write-file", "read-file", "shared-clone", "delete", "metadata", "copy-directory", "compound-file", "ram-copy", "overwrite-while-open", "checksum", "sync"};
    return k >= 0 && k <= 11 ? n[k] : "?";
}
std::string hex(const std::string& s, size_t at) {
    std::string o;
    char b[4];
    for (size_t i = at; i < s.size() && i < at + 8; ++i) {
        snprintf(b, sizeof b, "%02x", (uint8_t)s[i]);
        o += b;
    }
    return o;
}

// Typed values and their encoding, as the file format documentation gives them.
struct Val {
    int kind; // 0 byte, 1 int, 2 long, 3 vint, 4 vlong, 5 string, 6 bytes
    int64_t n = 0;
    String s;
    std::string b;
    size_t at = 0, len = 0;
};
void encV(std::string& o, uint64_t v) {
    while (v & ~0x7FULL) {
        o += (char)((v & 0x7f) | 0x80);
        v >>= 7;
    }
    o += (char)v;
}
void encode(std::string& o, const Val& v) {
    switch (v.kind) {
    case 0:
        o += (char)v.n;
        break;
    case 1:
        for (int i = 24; i >= 0; i -= 8) {
            o += (char)((uint64_t)v.n >> i);
        }
        break;
    case 2:
        for (int i = 56; i >= 0; i -= 8) {
            o += (char)((uint64_t)v.n >> i);
        }
        break;
    case 3:
        encV(o, (uint32_t)v.n);
        break;
    case 4:
        encV(o, (uint64_t)v.n);
        break;
    case 5: {
        std::string u;
        for (wchar_t c : v.s) {
            uint32_t x = (uint32_t)c;
            if (x < 0x80) {
                u += (char)x;
            } else if (x < 0x800) {
                u += (char)(0xC0 | (x >> 6));
                u += (char)(0x80 | (x & 63));
            } else if (x < 0x10000) {
                u += (char)(0xE0 | (x >> 12));
                u += (char)(0x80 | ((x >> 6) & 63));
                u += (char)(0x80 | (x & 63));
            } else {
                u += (char)(0xF0 | (x >> 18));
                u += (char)(0x80 | ((x >> 12) & 63));
                u += (char)(0x80 | ((x >> 6) & 63));
                u += (char)(0x80 | (x & 63));
            }
        }
        encV(o, u.size());
        o += u;
        break;
    }
    default:
        o += v.b;
    }
}
struct FileModel {
    std::string bytes;
    std::vector<Val> vals; // typed values, when the file is a plain sequence of them
    bool known = false;    // written completely without an error
    bool exists = false;
    bool touched = false;  // may exist in any state
    int reading = 0;
};
struct Shared {
    IndexInputPtr in;
    std::string bytes;
    String name;
    int users = 0;
};

struct Store {
    const Plan& p;
    int nth, dirKind;
    DirectoryPtr dir, dir2;
    std::vector<std::map<String, FileModel>> files; // by owner thread
    std::vector<std::shared_ptr<Shared>> shared;
    sim::Disk* disk;
    bool hard; // this plan injects failures
    int opsDone = 0, failures = 0;

    explicit Store(const Plan& p) : p(p) {
        nth = (int)p.get("threads", 1);
        dirKind = (int)p.get("dir");
        hard = p.get("hard") != 0;
        files.resize((size_t)nth);
        disk = sim::newDisk();
        sim::mount("d0", disk, 1);
        dir = make(L"/sim/d0/a");
        dir2 = make(L"/sim/d0/b");
    }
    DirectoryPtr make(const String& path) {
        switch (dirKind) {
        case 0:
            return newLucene<RAMDirectory>();
        case 1:
            return newLucene<SimpleFSDirectory>(path);
        case 2:
            return newLucene<MMapDirectory>(path);
        default: {
            HashSet<String> ext(HashSet<String>::newInstance());
            ext.add(L"nrm");
            return newLucene<FileSwitchDirectory>(ext, newLucene<RAMDirectory>(), newLucene<SimpleFSDirectory>(path), true);
        }
        }
    }
    int faults() { return sim::faultsFired(); }

    // An operation of the library. It may throw only if a failure was injected meanwhile.
    bool attempt(const std::string& what, const std::function<void()>& fn) {
        int before = faults();
        bool written = anyWritten;
        try {
            fn();
            return true;
        } catch (NoSuchDirectoryException&) {
            if (written) {
                sim::violation("unexpected-exception", what + ": the directory does not exist although files were written");
            }
            return false;
        } catch (LuceneException& e) {
            if (faults() == before && !diskFullNow()) {
                sim::violation("unexpected-exception", what + " failed without any failure of the disk (" + std::to_string(before) + " so far): " + excText(e));
            }
            ++failures;
            sim::stat("operations_failed_by_faults");
            return false;
        } catch (std::exception& e) {
            sim::violation("foreign-exception", what + " threw an exception that is not a LuceneException: " + e.what());
        }
    }
    bool diskFullNow() { return fullAt >= 0; }
    int64_t fullAt = -1;
    bool anyWritten = false;

    String fileName(int t, uint64_t k) {
        static const wchar_t* ext[] = {L"fdt", L"cfs", L"nrm", L"tis"};
        // names the directory copy accepts as index files
        return L"_" + StringUtils::toString(t) + (dirKind == 3 && k % 2 ? L"q" : L"") + StringUtils::toString((int32_t)k, 36) + L"." + (dirKind == 3 && k % 3 == 0 ? L"nrm" : ext[k % 2 ? 0 : 3]);
    }
    Val randVal(sim::Rng& r, int big) {
        Val v;
        v.kind = (int)r.below(7);
        switch (v.kind) {
        case 0:
            v.n = (int64_t)r.below(256);
            break;
        case 1:
            v.n = (int32_t)(uint32_t)r.next();
            break;
        case 2:
            v.n = (int64_t)r.next();
            break;
        case 3:
            v.n = (int32_t)(r.next() >> (32 + r.below(32)));
            break;
        case 4:
            v.n = (int64_t)(r.next() >> (1 + r.below(63)));
            break;
        case 5: {
            int n = (int)r.below(12);
            for (int i = 0; i < n; ++i) {
                static const uint32_t top[] = {0x7f, 0x7ff, 0xd7ff, 0x10ffff};
                uint32_t c = 1 + (uint32_t)r.below(top[r.below(4)]);
                // surrogates and non-characters are outside the library's domain
                if ((c >= 0xd800 && c < 0xe000) || (c & 0xffff) >= 0xfffe) {
                    c = 0x61;
                }
                v.s += (wchar_t)c;
            }
            break;
        }
        default: {
            static const int sizes[] = {1, 7, 100, 1023, 1024, 1025, 2048, 5000, 16383, 16384, 16385, 33000};
            size_t n = (size_t)sizes[r.below(big ? 12 : 7)];
            v.b.resize(n);
            uint64_t x = r.next();
            for (size_t i = 0; i < n; ++i) {
                v.b[i] = (char)(sim::mix(x, i) & 0xff);
            }
        }
        }
        return v;
    }
    static void writeVal(const IndexOutputPtr& o, const Val& v) {
        switch (v.kind) {
        case 0:
            o->writeByte((uint8_t)v.n);
            break;
        case 1:
            o->writeInt((int32_t)v.n);
            break;
        case 2:
            o->writeLong(v.n);
            break;
        case 3:
            o->writeVInt((int32_t)v.n);
            break;
        case 4:
            o->writeVLong(v.n);
            break;
        case 5:
            o->writeString(v.s);
            break;
        default:
            o->writeBytes((const uint8_t*)v.b.data(), 0, (int32_t)v.b.size());
        }
    }
    void fail(const char* cls, const String& name, const std::string& what) {
        sim::violation(cls, narrow(name) + " (directory kind " + std::to_string(dirKind) + "): " + what);
    }

    // ---------------------------------------------------------------- writing
    void write(int t, const String& name, sim::Rng& r, bool throughChecksum) {
        FileModel& f = files[(size_t)t][name];
        std::string img;
        std::vector<Val> vals;
        bool plain = true;
        f.known = false;
        f.touched = true;
        f.bytes.clear();
        f.vals.clear();
        int n = r.below(6) == 0 ? 0 : 1 + (int)r.below(25);
        int big = r.below(3) == 0;
        IndexOutputPtr o, raw;
        int64_t sum = 0;
        bool ok = attempt("writing " + narrow(name), [&] {
            raw = dir->createOutput(name);
            o = raw;
            if (throughChecksum) {
                o = newLucene<ChecksumIndexOutput>(raw);
            }
            for (int i = 0; i < n; ++i) {
                int c = (int)r.below(20);
                if (c == 0) {
                    o->flush();
                    if (o->length() != (int64_t)img.size()) {
                        fail("wrong-length", name, "length() after flush is " + std::to_string(o->length()) + ", written " + std::to_string(img.size()));
                    }
                } else if (c == 1 && img.size() > 0 && !throughChecksum) {
                    // overwrite a part
                    size_t at = (size_t)r.below(img.size());
                    size_t len = 1 + (size_t)r.below(img.size() - at < 3000 ? img.size() - at : 3000);
                    std::string b(len, (char)r.below(256));
                    o->seek((int64_t)at);
                    if (o->getFilePointer() != (int64_t)at) {
                        fail("wrong-position", name, "getFilePointer after seek");
                    }
                    o->writeBytes((const uint8_t*)b.data(), 0, (int32_t)len);
                    img.replace(at, len, b);
                    o->seek((int64_t)img.size());
                    plain = false;
                } else if (c == 2 && !throughChecksum) {
                    // reserve room, then fill it
                    Val v;
                    v.kind = 6;
                    v.b.assign(1 + (size_t)r.below(5000), (char)r.below(256));
                    o->setLength((int64_t)(img.size() + v.b.size()));
                    v.at = img.size();
                    writeVal(o, v);
                    encode(img, v);
                    v.len = v.b.size();
                    vals.push_back(v);
                } else {
                    Val v = randVal(r, big);
                    v.at = img.size();
                    writeVal(o, v);
                    encode(img, v);
                    v.len = img.size() - v.at;
                    vals.push_back(v);
                }
                if (o->getFilePointer() != (int64_t)img.size()) {
                    fail("wrong-position", name, "getFilePointer while writing is " + std::to_string(o->getFilePointer()) + ", written " + std::to_string(img.size()));
                }
            }
            if (throughChecksum) {
                ChecksumIndexOutputPtr c(boost::dynamic_pointer_cast<ChecksumIndexOutput>(o));
                sum = c->getChecksum();
                if (r.below(2)) {
                    c->prepareCommit();
                    c->finishCommit();
                    Val v;
                    v.kind = 2;
                    v.n = sum;
                    encode(img, v);
                }
            }
            o->close();
        });
        if (!ok) {
            if (raw) {
                try {
                    o->close();
                } catch (LuceneException&) {
                }
            }
            return;
        }
        sim::stat("files_written");
        sim::stat("bytes_written", (int64_t)img.size());
        f.bytes = img;
        if (plain && !throughChecksum) {
            f.vals = vals;
        }
        f.known = true;
        f.exists = true;
        f.touched = false;
        anyWritten = anyWritten || dirKind != 3 || name.find(L".nrm") == String::npos;
        int64_t len = -1;
        int before = faults();
        if (attempt("fileLength of " + narrow(name), [&] { len = dir->fileLength(name); }) && len != (int64_t)img.size() && before == faults()) {
            fail("lost-write", name, "written and closed without an error, " + std::to_string(img.size()) + " bytes, but the file has " + std::to_string(len));
        }
    }

    // ---------------------------------------------------------------- reading
    void checkBytes(const String& name, const std::string& want, size_t at, const uint8_t* got, size_t n, const char* how) {
        for (size_t i = 0; i < n; ++i) {
            if ((uint8_t)want[at + i] != got[i]) {
                fail("wrong-bytes", name, std::string(how) + ": byte " + std::to_string(at + i) + " of " + std::to_string(want.size()) + " differs: got " + hex(std::string((const char*)got, n), i) + " want " + hex(want, at + i));
            }
        }
    }
    void randomReads(const IndexInputPtr& in, const String& name, const std::string& want, const std::vector<Val>* vals, sim::Rng& r, int n) {
        // position as the model has it; -1: unknown after a failed read
        int64_t pos = in->getFilePointer();
        if (in->length() != (int64_t)want.size()) {
            fail("wrong-length", name, "open file has length " + std::to_string(in->length()) + ", written " + std::to_string(want.size()));
        }
        std::vector<uint8_t> buf;
        for (int i = 0; i < n; ++i) {
            int c = (int)r.below(10);
            int before = faults();
            bool atEnd = false; // the read goes past the end
            try {
                if (c == 0 || c == 1 || pos < 0) {
                    static const int edge[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 16384};
                    size_t at = want.empty() ? 0 : (size_t)r.below(want.size() + 1);
                    if (r.below(4) == 0) {
                        at = (size_t)edge[r.below(8)];
                    } else if (r.below(6) == 0) {
                        at = want.size();
                    }
                    if (at > want.size()) {
                        at = want.size();
                    }
                    pos = -1;
                    in->seek((int64_t)at);
                    if (in->getFilePointer() != (int64_t)at) {
                        fail("wrong-position", name, "getFilePointer after seek to " + std::to_string(at) + " of " + std::to_string(want.size()) + " is " + std::to_string(in->getFilePointer()));
                    }
                    pos = (int64_t)at;
                } else if (c <= 4 && vals && !vals->empty()) {
                    const Val& v = (*vals)[(size_t)r.below(vals->size())];
                    if (pos != (int64_t)v.at) {
                        pos = -1;
                        in->seek((int64_t)v.at);
                    }
                    pos = -1;
                    readVal(in, name, v);
                    pos = (int64_t)(v.at + v.len);
                } else if (c <= 6) {
                    int64_t at = pos;
                    pos = -1;
                    atEnd = at >= (int64_t)want.size();
                    uint8_t b = in->readByte();
                    if (at >= (int64_t)want.size()) {
                        fail("read-past-end", name, "readByte at the end (" + std::to_string(at) + ") returned a byte");
                    }
                    checkBytes(name, want, (size_t)at, &b, 1, "readByte");
                    pos = at + 1;
                } else {
                    static const int sizes[] = {0, 1, 3, 64, 1000, 1024, 2048, 2049, 5000, 20000};
                    size_t k = (size_t)sizes[r.below(10)];
                    bool past = (size_t)pos + k > want.size();
                    if (past && r.below(4)) {
                        k = want.size() - (size_t)pos;
                        past = false;
                    }
                    buf.assign(k + 8, 0xA7);
                    int64_t at = pos;
                    pos = -1;
                    atEnd = past;
                    in->readBytes(buf.data(), 0, (int32_t)k, r.below(3) != 0);
                    if (past) {
                        fail("read-past-end", name, "readBytes of " + std::to_string(k) + " at " + std::to_string(at) + " of " + std::to_string(want.size()) + " returned");
                    }
                    checkBytes(name, want, (size_t)at, buf.data(), k, "readBytes");
                    for (size_t z = 0; z < 8; ++z) {
                        if (buf[k + z] != 0xA7) {
                            fail("wrong-bytes", name, "readBytes wrote past the requested length");
                        }
                    }
                    pos = at + (int64_t)k;
                }
                if (pos >= 0 && in->getFilePointer() != pos) {
                    fail("wrong-position", name, "getFilePointer is " + std::to_string(in->getFilePointer()) + ", expected " + std::to_string(pos));
                }
            } catch (IOException& e) {
                // reads past the end fail and so do reads with an injected failure
                if (before == faults() && !atEnd) {
                    sim::violation("unexpected-exception", "reading " + narrow(name) + " failed without any failure of the disk: " + excText(e));
                }
                pos = -1;
                sim::stat("reads_refused");
            }
        }
    }

    void readVal(const IndexInputPtr& in, const String& name, const Val& v) {
        bool good = true;
        switch (v.kind) {
        case 0:
            good = in->readByte() == (uint8_t)v.n;
            break;
        case 1:
            good = in->readInt() == (int32_t)v.n;
            break;
        case 2:
            good = in->readLong() == v.n;
            break;
        case 3:
            good = in->readVInt() == (int32_t)v.n;
            break;
        case 4:
            good = in->readVLong() == v.n;
            break;
        case 5:
            good = in->readString() == v.s;
            break;
        default: {
            std::vector<uint8_t> b(v.b.size());
            in->readBytes(b.data(), 0, (int32_t)b.size());
            good = memcmp(b.data(), v.b.data(), b.size()) == 0;
        }
        }
        if (!good) {
            fail("wrong-bytes", name, "value of kind " + std::to_string(v.kind) + " at " + std::to_string(v.at) + " reads back differently");
        }
    }
    // the whole file, front to back
    void readAll(const DirectoryPtr& d, const String& name, const std::string& want, const char* how, sim::Rng& r) {
        IndexInputPtr in;
        static const int bs[] = {1, 7, 16, 128, 1024, 2048, 4096, 30000};
        int32_t size = bs[r.below(8)];
        attempt(std::string(how) + " " + narrow(name), [&] {
            in = r.below(2) ? d->openInput(name) : d->openInput(name, size);
            if (in->length() != (int64_t)want.size()) {
                fail("wrong-length", name, std::string(how) + ": length " + std::to_string(in->length()) + " instead of " + std::to_string(want.size()));
            }
            std::vector<uint8_t> b(want.size() + 1);
            in->readBytes(b.data(), 0, (int32_t)want.size());
            checkBytes(name, want, 0, b.data(), want.size(), how);
        });
        closeIn(in);
        sim::stat("files_read");
    }
    void closeIn(const IndexInputPtr& in) {
        if (in) {
            attempt("closing an input", [&] { in->close(); });
        }
    }

    // ---------------------------------------------------------------- operations
    String pick(int t, sim::Rng& r, bool known) {
        std::vector<String> c;
        for (auto& f : files[(size_t)t]) {
            if (f.second.known && f.second.exists) {
                c.push_back(f.first);
            }
        }
        return c.empty() ? String() : c[(size_t)r.below(c.size())];
    }
    void checkMeta(int t, sim::Rng& r) {
        int before = faults();
        HashSet<String> all;
        if (attempt("listAll", [&] { all = dir->listAll(); })) {
            for (auto& f : files[(size_t)t]) {
                if (f.second.touched) {
                    continue;
                }
                bool ex = f.second.exists;
                if (all.contains(f.first) != ex && before == faults()) {
                    fail("wrong-listing", f.first, ex ? "an existing file is not listed" : "a deleted file is listed");
                }
                bool e2 = ex;
                if (attempt("fileExists", [&] { e2 = dir->fileExists(f.first); }) && e2 != ex && before == faults()) {
                    fail("wrong-listing", f.first, "fileExists is wrong");
                }
                int64_t len = -1;
                if (ex && f.second.known && attempt("fileLength", [&] { len = dir->fileLength(f.first); }) && len != (int64_t)f.second.bytes.size() && before == faults()) {
                    fail("wrong-length", f.first, "fileLength is " + std::to_string(len) + ", written " + std::to_string(f.second.bytes.size()));
                }
            }
        }
        if (nth == 1 && all) {
            for (HashSet<String>::iterator i = all.begin(); all && i != all.end(); ++i) {
                if (before == faults() && !files[0].count(*i) && i->find(L".lock") == String::npos) {
                    fail("wrong-listing", *i, "a file that was never written is listed");
                }
            }
        }
        String n = pick(t, r, true);
        if (!n.empty()) {
            uint64_t m1 = 0, m2 = 0;
            if (attempt("fileModified", [&] { m1 = dir->fileModified(n); dir->touchFile(n); m2 = dir->fileModified(n); }) && before == faults() && m2 < m1 && p.get("s.clock_ppm") == 0) {
                fail("wrong-time", n, "touching a file moved its time backwards");
            }
            readAll(dir, n, files[(size_t)t][n].bytes, "reading after touch", r);
        }
        if (nth == 1 && dirKind == 0 && !hard) {
            int64_t want = 0, more = 0; // a seek to the end of a full buffer allocates the next one
            bool all = true;
            for (auto& f : files[0]) {
                all = all && !f.second.touched;
                if (f.second.exists && f.second.known) {
                    want += (int64_t)((f.second.bytes.size() + 1023) / 1024) * 1024;
                    more += f.second.bytes.size() % 1024 ? 0 : 1024;
                }
            }
            int64_t got = boost::dynamic_pointer_cast<RAMDirectory>(dir)->sizeInBytes();
            if (all && (got < want || got > want + more || got % 1024)) {
                sim::violation("wrong-size", "sizeInBytes is " + std::to_string(got) + ", the files' buffers have " + std::to_string(want));
            }
        }
    }
    void exec(int t, const Op& op) {
        sim::progress();
        sim::Rng r(sim::mix((uint64_t)op.a, (uint64_t)op.b * 1000003ULL + (uint64_t)op.c));
        ++opsDone;
        switch (op.kind) {
        case S_WRITE:
            write(t, fileName(t, r.below(8)), r, false);
            break;
        case S_CHECKSUM: {
            String n = fileName(t, r.below(8));
            write(t, n, r, true);
            FileModel& f = files[(size_t)t][n];
            if (f.known && f.bytes.size() >= 8) {
                IndexInputPtr in;
                attempt("checksum of " + narrow(n), [&] {
                    in = newLucene<ChecksumIndexInput>(dir->openInput(n));
                    ChecksumIndexInputPtr c(boost::dynamic_pointer_cast<ChecksumIndexInput>(in));
                    std::vector<uint8_t> b(f.bytes.size());
                    size_t cut = (size_t)r.below(b.size());
                    in->readBytes(b.data(), 0, (int32_t)cut);
                    int64_t a1 = c->getChecksum();
                    boost::crc_32_type crc;
                    crc.process_bytes(f.bytes.data(), cut);
                    if (a1 != (int64_t)crc.checksum()) {
                        fail("wrong-checksum", n, "checksum of a prefix differs");
                    }
                });
                closeIn(in);
            }
            break;
        }
        case S_READ: {
            String n = pick(t, r, true);
            if (n.empty()) {
                break;
            }
            FileModel& f = files[(size_t)t][n];
            IndexInputPtr in;
            std::vector<IndexInputPtr> clones;
            attempt("opening " + narrow(n), [&] {
                static const int bs[] = {1, 3, 16, 100, 1024, 4096};
                in = r.below(2) ? dir->openInput(n) : dir->openInput(n, bs[r.below(6)]);
            });
            if (!in) {
                break;
            }
            randomReads(in, n, f.bytes, &f.vals, r, 3 + (int)r.below(10));
            for (int i = 0; i < 1 + (int)r.below(3); ++i) {
                IndexInputPtr cl;
                attempt("cloning " + narrow(n), [&] { cl = boost::dynamic_pointer_cast<IndexInput>(in->clone()); });
                if (cl) {
                    clones.push_back(cl);
                }
            }
            // an original and its clones move independently
            for (int i = 0; i < 6; ++i) {
                size_t k = (size_t)r.below(clones.size() + 1);
                randomReads(k == clones.size() ? in : clones[k], n, f.bytes, &f.vals, r, 1 + (int)r.below(5));
            }
            for (IndexInputPtr& c : clones) {
                closeIn(c);
            }
            randomReads(in, n, f.bytes, &f.vals, r, 2);
            closeIn(in);
            sim::stat("files_read");
            break;
        }
        case S_SHARED: {
            // inputs shared by all threads, each reads its own clone
            if (shared.size() < 4) {
                String n = pick(t, r, true);
                if (!n.empty()) {
                    std::shared_ptr<Shared> s(new Shared);
                    attempt("opening " + narrow(n), [&] { s->in = dir->openInput(n); });
                    s->bytes = files[(size_t)t][n].bytes;
                    s->name = n;
                    if (s->in) {
                        shared.push_back(s);
                    }
                }
            }
            if (shared.empty()) {
                break;
            }
            size_t k = (size_t)r.below(shared.size());
            std::shared_ptr<Shared> s = shared[k];
            ++s->users;
            IndexInputPtr cl;
            attempt("cloning " + narrow(s->name), [&] { cl = boost::dynamic_pointer_cast<IndexInput>(s->in->clone()); });
            if (cl) {
                randomReads(cl, s->name, s->bytes, nullptr, r, 4 + (int)r.below(12));
                closeIn(cl);
                sim::stat("shared_clone_reads");
            }
            --s->users;
            if (r.below(5) == 0 && s->users == 0) {
                for (size_t i = 0; i < shared.size(); ++i) {
                    if (shared[i] == s) {
                        shared.erase(shared.begin() + (long)i);
                        closeIn(s->in);
                        break;
                    }
                }
            }
            break;
        }
        case S_DELETE: {
            String n = pick(t, r, true);
            if (n.empty()) {
                break;
            }
            FileModel& f = files[(size_t)t][n];
            f.touched = true;
            if (attempt("deleting " + narrow(n), [&] { dir->deleteFile(n); })) {
                f.exists = f.known = f.touched = false;
                sim::stat("files_deleted");
                int before = faults();
                bool opened = false;
                try {
                    IndexInputPtr in = dir->openInput(n);
                    opened = true;
                    in->close();
                } catch (LuceneException&) {
                }
                if (opened && before == faults()) {
                    fail("deleted-file-opened", n, "a deleted file could be opened");
                }
            } else {
                f.known = false;
            }
            break;
        }
        case S_META:
            checkMeta(t, r);
            break;
        case S_SYNC: {
            String n = pick(t, r, true);
            if (!n.empty() && attempt("sync of " + narrow(n), [&] { dir->sync(n); }) && dirKind != 0) {
                sim::stat("syncs");
                if (dirKind != 3 || !(n.size() > 4 && n.compare(n.size() - 4, 4, L".nrm") == 0)) { // those are in memory
                    synced[n] = files[(size_t)t][n].bytes;
                    syncSeq[n] = sim::diskSeq(disk);
                    if (r.below(4) == 0) {
                        // what was synced survives a power failure
                        sim::CrashMode m;
                        m.data = (int)r.below(3);
                        sim::Disk* img = sim::crashImage(disk, sim::diskSeq(disk), m, r);
                        std::string got;
                        if (!sim::readFile(img, "a/" + narrow(n), got) || got != synced[n]) {
                            fail("sync-lost", n, "content is lost in a crash after a successful sync: " + std::to_string(got.size()) + " bytes of " + std::to_string(synced[n].size()));
                        }
                        sim::freeDisk(img);
                        sim::stat("crash_images");
                    }
                }
            }
            break;
        }
        case S_COPY: {
            if (nth > 1) {
                break; // files of other threads may be half written
            }
            if (attempt("copying the directory", [&] { Directory::copy(dir, dir2, false); })) {
                for (auto& f : files[0]) {
                    if (f.second.known && f.second.exists && !f.second.touched) {
                        readAll(dir2, f.first, f.second.bytes, "reading the copy of", r);
                    }
                }
                sim::stat("directory_copies");
            }
            break;
        }
        case S_RAMCOPY: {
            if (nth > 1) {
                break;
            }
            DirectoryPtr d;
            if (attempt("copying into memory", [&] { d = newLucene<RAMDirectory>(dir); })) {
                for (auto& f : files[0]) {
                    if (f.second.known && f.second.exists && !f.second.touched) {
                        readAll(d, f.first, f.second.bytes, "reading the memory copy of", r);
                    }
                }
                sim::stat("directory_copies");
            }
            break;
        }
        case S_OVERWRITE: {
            String n = pick(t, r, true);
            if (n.empty()) {
                break;
            }
            std::string old = files[(size_t)t][n].bytes;
            IndexInputPtr in;
            attempt("opening " + narrow(n), [&] { in = dir->openInput(n); });
            if (!in) {
                break;
            }
            if (r.below(2)) {
                randomReads(in, n, old, nullptr, r, 2);
            }
            if (r.below(2)) {
                write(t, n, r, false);
            } else {
                FileModel& f = files[(size_t)t][n];
                f.touched = true;
                f.known = false;
                if (attempt("deleting " + narrow(n), [&] { dir->deleteFile(n); })) {
                    f.exists = f.known = f.touched = false;
                }
            }
            // what is open keeps what it was opened with
            randomReads(in, n, old, nullptr, r, 4 + (int)r.below(8));
            closeIn(in);
            sim::stat("overwritten_while_open");
            break;
        }
        case S_CFS: {
            std::vector<String> parts;
            for (auto& f : files[(size_t)t]) {
                if (f.second.known && f.second.exists && r.below(2)) {
                    parts.push_back(f.first);
                }
            }
            if (parts.empty()) {
                break;
            }
            String n = L"_" + StringUtils::toString(t) + L"cc.cfs";
            files[(size_t)t][n].touched = true;
            bool ok = attempt("writing a compound file", [&] {
                CompoundFileWriterPtr w = newLucene<CompoundFileWriter>(dir, n);
                for (String& s : parts) {
                    w->addFile(s);
                }
                w->close();
            });
            files[(size_t)t][n].exists = files[(size_t)t][n].known = false;
            if (!ok) {
                break;
            }
            CompoundFileReaderPtr rd;
            static const int bs[] = {1, 16, 100, 1024, 4096};
            attempt("opening a compound file", [&] { rd = newLucene<CompoundFileReader>(dir, n, bs[r.below(5)]); });
            if (!rd) {
                break;
            }
            std::vector<IndexInputPtr> ins;
            for (String& s : parts) {
                FileModel& f = files[(size_t)t][s];
                IndexInputPtr in;
                attempt("opening inside a compound file", [&] { in = rd->openInput(s); });
                if (in) {
                    ins.push_back(in);
                    randomReads(in, s, f.bytes, &f.vals, r, 3 + (int)r.below(5));
                }
                if (rd->fileLength(s) != (int64_t)f.bytes.size() || !rd->fileExists(s)) {
                    fail("wrong-length", s, "the compound file has a wrong length for its part");
                }
                IndexInputPtr cl;
                if (in) {
                    attempt("cloning inside a compound file", [&] { cl = boost::dynamic_pointer_cast<IndexInput>(in->clone()); });
                }
                if (cl) {
                    randomReads(cl, s, f.bytes, &f.vals, r, 3);
                    randomReads(in, s, f.bytes, &f.vals, r, 3);
                    closeIn(cl);
                }
            }
            for (IndexInputPtr& in : ins) {
                closeIn(in);
            }
            attempt("closing a compound file", [&] { rd->close(); });
            if (r.below(2) && attempt("deleting a compound file", [&] { dir->deleteFile(n); })) {
                files[(size_t)t][n].touched = false;
            }
            sim::stat("compound_files");
            break;
        }
        }
    }
    std::map<String, std::string> synced;
    std::map<String, uint64_t> syncSeq;

    void run() {
        if (p.get("full") > 0) {
            fullAt = p.get("full");
            sim::setDiskFull(disk, fullAt);
        }
        sim::enableFaults(true);
        std::vector<std::vector<Op>> per((size_t)nth);
        for (const Op& o : p.ops) {
            per[(size_t)(o.th % nth)].push_back(o);
        }
        std::vector<sim::Tid> ts;
        for (int t = 1; t < nth; ++t) {
            ts.push_back(sim::go([this, t, &per] {
                for (const Op& o : per[(size_t)t]) {
                    exec(t, o);
                }
            }));
        }
        for (const Op& o : per[0]) {
            exec(0, o);
        }
        for (sim::Tid t : ts) {
            sim::join(t);
        }
        sim::enableFaults(false);
        sim::setDiskFull(disk, -1);
        fullAt = -1;
        // every file that was written without an error is still what was written
        sim::Rng r(p.seed ^ 5);
        for (int t = 0; t < nth; ++t) {
            for (auto& f : files[(size_t)t]) {
                if (f.second.known && f.second.exists) {
                    readAll(dir, f.first, f.second.bytes, "final reading of", r);
                }
            }
        }
        for (std::shared_ptr<Shared>& s : shared) {
            randomReads(s->in, s->name, s->bytes, nullptr, r, 5);
            s->in->close();
        }
        shared.clear();
        dir->close();
        dir2->close();
        dir.reset();
        dir2.reset();
        if (sim::openFds() || sim::openMaps()) {
            sim::violation("leaked-handle", "open after everything was closed: " + sim::describeOpenFds());
        }
    }
};

void gen(Plan& p, sim::Rng& r, int tier) {
    p.set("dir", (int64_t)r.below(4));
    int th = r.below(2) ? 1 : 2 + (int)r.below(3);
    p.set("threads", th);
    static const int sw[] = {1000, 10000, 50000, 200000};
    p.set("s.policy", r.below(4) == 0);
    p.set("s.switch_ppm", sw[r.below(4)]);
    static const int bb[] = {0, 100, 1000, 10000};
    p.set("s.bb", bb[r.below(4)]);
    int mode = (int)r.below(4); // 0 nothing, 1 transparent disturbances, 2 and 3 failures too
    bool noise = mode == 1 || mode == 3;
    p.set("hard", mode >= 2);
    if (noise) {
        static const double rate[] = {0.01, 0.1, 0.5};
        p.setRate(sim::OC_READ, sim::F_SHORT, rate[r.below(3)]);
        p.setRate(sim::OC_WRITE, sim::F_SHORT, rate[r.below(3)]);
        p.setRate(sim::OC_READ, sim::F_EINTR, rate[r.below(3)] / 2);
        p.setRate(sim::OC_WRITE, sim::F_EINTR, rate[r.below(3)] / 2);
        p.setRate(sim::OC_WRITE, sim::F_SLOW, 0.002);
        p.setRate(sim::OC_READ, sim::F_SLOW, 0.002);
    }
    if (mode >= 2) {
        p.set("f.max", 1 + (int64_t)r.below(4));
        if (r.below(3) == 0) {
            p.set("full", 1000LL << r.below(8));
        } else {
            switch (r.below(4)) {
            case 0:
                p.setRate(sim::OC_WRITE, r.below(2) ? sim::F_EIO : r.below(2) ? sim::F_ENOSPC : sim::F_SHORT_ENOSPC, 0.03);
                break;
            case 1:
                p.setRate(sim::OC_READ, sim::F_EIO, 0.05);
                break;
            case 2:
                p.setRate(sim::OC_OPENW, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, 0.05);
                p.setRate(sim::OC_OPENR, r.below(2) ? sim::F_EMFILE : sim::F_EACCES, 0.05);
                break;
            default:
                p.setRate(sim::OC_FSYNC, sim::F_FSYNC_EIO, 0.2);
                p.setRate(sim::OC_UNLINK, sim::F_EACCES, 0.1);
                p.setRate(sim::OC_LIST, sim::F_EIO, 0.05);
                p.setRate(sim::OC_MMAP, sim::F_EIO, 0.05);
            }
        }
    }
    static const int kinds[] = {S_WRITE, S_WRITE, S_WRITE, S_READ, S_READ, S_READ, S_SHARED, S_SHARED, S_DELETE, S_META, S_COPY, S_CFS, S_RAMCOPY, S_OVERWRITE, S_CHECKSUM, S_SYNC};
    int n = 6 + (int)r.below(tier ? 60 : 30);
    for (int i = 0; i < n; ++i) {
        for (int t = 0; t < th; ++t) {
            Op o;
            o.th = t;
            o.kind = i < 2 ? S_WRITE : kinds[r.below(16)];
            o.a = (int64_t)r.below(1000000);
            o.b = (int64_t)r.below(1000000);
            o.c = (int64_t)r.below(1000000);
            p.ops.push_back(o);
        }
    }
}
void run(const Plan& p) {
    Store s(p);
    s.run();
}
RegisterProp reg("C16", gen, run, storeOpName);
}
