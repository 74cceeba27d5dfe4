// Shared by the drivers: hex coding, status names, canonical dumps of documents.
// Only the public interface of the library is used.
#pragma once
#include "Json4C4/C4Json.h"
#include "TSText.h"
#include <algorithm>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
extern "C" int __sanitizer_get_ownership(const volatile void*);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
#else
inline void __asan_poison_memory_region(void const volatile*, size_t) {}
inline void __asan_unpoison_memory_region(void const volatile*, size_t) {}
#endif

namespace Json = C4::Json;
namespace TS   = Terathon;

namespace vh
{
inline int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline std::string unhex(const std::string& h)
{
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(char(hexv(h[i]) * 16 + hexv(h[i + 1])));
    return r;
}
inline void puthex(std::string& o, const char* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) { o.push_back(d[(uint8_t)p[i] >> 4]); o.push_back(d[p[i] & 15]); }
}
inline std::string hex(const std::string& s) { std::string o; puthex(o, s.data(), s.size()); return o; }

inline std::vector<std::string> split(const std::string& s, char sep = ' ')
{
    std::vector<std::string> r;
    size_t i = 0;
    for (;;)
    {
        size_t j = s.find(sep, i);
        if (j == std::string::npos) { r.push_back(s.substr(i)); return r; }
        r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
}

#define VH_STATUSES(X) \
    X(kOk) X(KFileOpenError) X(KFileReadError) X(KFileTooLarge) X(kTextBufferContentsInvalid) X(kUnterminatedTextBuffer) \
    X(kExpectedOpeningCurlyBraces) X(kExpectedClosingCurlyBracesOrComma) X(kExpectedOpeningSquareBrackets) \
    X(kExpectedClosingSquareBracketsOrComma) X(kStringIllegalChar) X(kStringIllegalEscape) X(kExpectedColon) \
    X(kExpectedBeginingDoubleQuotes) X(kExpectedEndingDoubleQuotes) X(kFloatInvalid) X(kExpectedTrueOrFalse) X(kExpectedNull) \
    X(kExpectedJsonValue) X(kExpectedEndOfFile) X(kPrematureNullTerminator) X(kNumbersCannotHaveLeadingZeros) \
    X(kInvalidStructuredData) X(kMissingObjectElement) X(kException) X(kInvalidValueType) X(kNameNotPresent) \
    X(kNestingTooDeep) X(KFileWriteError)

struct NamedStatus { const char* name; Json::Status status; };
inline const std::vector<NamedStatus>& statuses()
{
#define VH_X(n) { #n, Json::Status::n },
    static const std::vector<NamedStatus> v = { VH_STATUSES(VH_X) };
    return v;
}
inline std::string st(Json::Status s)
{
    for (auto& n : statuses()) if (n.status == s) return n.name;
    return "unknown" + std::to_string((unsigned)s);
}
inline Json::Status stByName(const std::string& name)
{
    for (auto& n : statuses()) if (name == n.name) return n.status;
    abort();
}

inline std::string bytesOf(const TS::String<>& s)
{
    return std::string(static_cast<const char*>(s), (size_t)s.GetStringLength());
}

inline void putbits(std::string& o, double d)
{
    uint64_t u; memcpy(&u, &d, 8);
    char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
    o += b;
}

// T F Z s<hex>. n<bits>. [..] {k<hex>.<value>..} members sorted by name; '!' marks an inconsistency of the interface
inline void dump(const Json::Value* v, std::string& o)
{
    if (!v) { o += "none"; return; }
    int kinds = 0;
    if (const Json::ObjectValue* ov = v->AsJsonObjectValue())
    {
        kinds++;
        std::vector<std::pair<std::string, const Json::Value*>> es;
        std::vector<std::string> order;
        for (const Json::Value* e : *ov) { es.push_back({ bytesOf(e->name), e }); order.push_back(es.back().first); }
        std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
        o += "{";
        for (auto& e : es)
        {
            o += "k"; puthex(o, e.first.data(), e.first.size()); o += ".";
            dump(e.second, o);
            const char* n = e.second->name;
            bool nul = e.first.size() != strlen(n);
            if (!nul)
            {
                // lookup by name and type: found exactly for the member's own type
                const Json::Value* x = e.second;
                if (ov->FindString(n) != x->GetDataAsPointerTo<TS::String<>>()) o += "!fs";
                if (ov->FindNumber(n) != x->GetDataAsPointerTo<double>()) o += "!fn";
                if (ov->FindBool(n) != x->GetDataAsPointerTo<bool>()) o += "!fb";
                if (ov->FindJsonNull(n) != x->GetDataAsPointerTo<Json::Null>()) o += "!fz";
                if (ov->FindJsonValueArray(n) != x->GetDataAsPointerTo<TS::Array<Json::Value*>>()) o += "!fa";
                if (ov->FindJsonObjectValue(n) != x->AsJsonObjectValue()) o += "!fo";
            }
        }
        std::string absent = es.empty() ? "a" : es.back().first + "a";
        if (ov->FindString(absent.c_str()) || ov->FindNumber(absent.c_str()) || ov->FindBool(absent.c_str()) || ov->FindJsonNull(absent.c_str()) ||
            ov->FindJsonValueArray(absent.c_str()) || ov->FindJsonObjectValue(absent.c_str()))
            o += "!absent";
        o += "}";
    }
    if (const TS::Array<Json::Value*>* a = v->GetDataAsPointerTo<TS::Array<Json::Value*>>())
    {
        kinds++;
        o += "[";
        for (const Json::Value* e : *a) dump(e, o);
        o += "]";
    }
    if (const TS::String<>* s = v->GetDataAsPointerTo<TS::String<>>())
    {
        kinds++;
        o += "s"; std::string b = bytesOf(*s); puthex(o, b.data(), b.size());
        if (b.size() != strlen(static_cast<const char*>(*s))) o += "!len";
        o += ".";
    }
    if (const double* d = v->GetDataAsPointerTo<double>()) { kinds++; o += "n"; putbits(o, *d); o += "."; }
    if (const bool* b = v->GetDataAsPointerTo<bool>()) { kinds++; o += *b ? "T" : "F"; }
    if (v->GetDataAsPointerTo<Json::Null>()) { kinds++; o += "Z"; }
    if (kinds != 1) o += "!kinds" + std::to_string(kinds);
}
inline std::string dump(const Json::Value* v) { std::string o; dump(v, o); return o; }

// A text buffer whose unused capacity may not be touched
struct Buffer
{
    TS::Array<char> a;
    const char* from = nullptr;
    size_t len = 0;
    explicit Buffer(const std::string& s)
    {
        a.SetArrayElementCount((TS::int32)s.size());
        if (s.empty()) return;
        memcpy(&a[0], s.data(), s.size());
#ifdef VH_ASAN
        if (__sanitizer_get_ownership(&a[0]))
        {
            size_t cap = __sanitizer_get_allocated_size(&a[0]);
            if (cap > s.size()) { from = &a[0] + s.size(); len = cap - s.size(); __asan_poison_memory_region(from, len); }
        }
#endif
    }
    ~Buffer() { if (len) __asan_unpoison_memory_region(from, len); }
};

inline std::string parseReport(const Json::ParseResult& r)
{
    return st(r.status) + " " + std::to_string(r.errorLine) + " " + std::to_string(r.errorColumn);
}

template <class F>
void serve(F&& f)
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string out = f(line);
        out.push_back('\n');
        size_t off = 0;
        while (off < out.size())
        {
            ssize_t n = ::write(1, out.data() + off, out.size() - off);
            if (n <= 0) exit(3);
            off += (size_t)n;
        }
    }
}
} // namespace vh
