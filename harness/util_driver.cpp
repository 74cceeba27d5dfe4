// Unicode, comparisons, searches, and conversions of integers. Every text ends where its memory ends,
// every output lies between guards.
#include "common.h"
#include "TSString.h"
#include "util_tables.h"
using namespace vh;
namespace T = TS::Text;

struct Text
{
    char* p; size_t n;
    explicit Text(const std::string& s, bool terminated = true) : n(s.size() + terminated) { p = (char*)malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (terminated) p[s.size()] = 0; }
    ~Text() { free(p); }
    Text(const Text&) = delete;
};
// room for n elements between guards; reports what was written, and whether the guards are intact
template <class C> struct Room
{
    std::vector<C> v; size_t n;
    explicit Room(size_t n_) : v(n_ + 16, C(0x5A5A)), n(n_) {}
    C* at() { return v.data() + 8; }
    const C* at() const { return v.data() + 8; }
    bool ok() const { for (size_t i = 0; i < 8; i++) if (v[i] != C(0x5A5A) || v[v.size() - 1 - i] != C(0x5A5A)) return false; return true; }
};
static std::string num(long long x) { return std::to_string(x); }
static void put(std::string& o, long long x) { o += num(x); o += ','; }
static std::string untilZero(const Room<char>& r) { std::string s; for (size_t i = 0; i < r.n; i++) { if (!r.at()[i]) return hex(s) + (r.ok() ? "" : "!outside"); s.push_back(r.at()[i]); } return "!unterminated" + hex(s); }
static std::string units(const uint16_t* p, size_t n) { std::string s; for (size_t i = 0; i < n && p[i]; i++) { s += num(p[i]); s += '.'; } return s; }
static std::string untilZero(const Room<uint16_t>& r) { for (size_t i = 0; i < r.n; i++) if (!r.at()[i]) return units(r.at(), r.n) + (r.ok() ? "" : "!outside"); return "!unterminated"; }
static std::vector<long> nums(const std::string& s) { std::vector<long> r; if (!s.empty()) for (auto& x : split(s, ',')) if (!x.empty()) r.push_back(atol(x.c_str())); return r; }
struct Words
{
    uint16_t* p;
    explicit Words(const std::vector<long>& v) { p = (uint16_t*)malloc(2 * v.size() + 2); for (size_t i = 0; i < v.size(); i++) p[i] = (uint16_t)v[i]; p[v.size()] = 0; }
    ~Words() { free(p); }
};

static std::string encoded(uint32_t code)
{
    Room<char> r(4);
    int n = T::WriteUnicodeChar(r.at(), code);
    std::string o;
    put(o, n);
    put(o, T::GetUnicodeCharByteCount(code));
    if (!r.ok()) o += "!outside";
    for (int i = n; i >= 0 && i < 4; i++) if (r.at()[i] != 0x5A) o += "!beyond";
    if (n > 0 && n <= 4) o += hex(std::string(r.at(), n));
    return o + ';';
}
static std::string judged(const std::string& s)     // bytes, ended by 0 or by the end of the memory
{
    size_t z = s.find('\0');
    Text t(z == std::string::npos ? s : s.substr(0, z), z != std::string::npos || s.size() < 4);
    uint32_t code = 1;
    std::string o;
    put(o, T::ValidateUnicodeChar(t.p));
    int n = T::ReadUnicodeChar(t.p, &code);
    put(o, code);
    put(o, n);
    return o + ';';
}
static std::string toWide(const std::string& s, size_t limits)
{
    Text t(s);
    std::string o;
    put(o, T::GetWideTextCharCount(t.p));
    for (size_t m = 0; m < limits; m++)
    {
        Room<uint16_t> r(m + 1);
        T::ConvertStringToWideText(t.p, r.at(), (int)m);
        o += untilZero(r) + ';';
    }
    return o;
}
static std::string toNarrow(const std::vector<long>& u, size_t limits)
{
    Words w(u);
    std::string o;
    put(o, T::GetUnicodeStringLength(w.p));
    for (size_t m = 0; m < limits; m++)
    {
        Room<char> r(m + 1);
        T::ConvertWideTextToString(w.p, r.at(), (int)m);
        o += untilZero(r) + ';';
    }
    TS::String<> s(w.p);
    o += hex((const char*)s) + ':' + num(s.GetStringLength());
    return o;
}

// places: where the characters of a text begin, and its end
static std::string counted(const std::string& s, const std::vector<long>& b)
{
    Text t(s);
    std::string o;
    size_t n = b.size() - 1;
    put(o, T::GetUnicodeCharCount(t.p));
    put(o, T::GetTextLength(t.p));
    for (size_t m = 0; m < s.size() + 2; m++) put(o, T::GetUnicodeCharCount(t.p, (int)m));
    o += ';';
    for (size_t i = 0; i < n; i++) for (int m = 0; m < 6; m++) put(o, T::GetNextUnicodeCharByteCount(t.p + b[i], m));
    o += ';';
    for (size_t i = 0; i < n; i++) for (int m = 0; m <= b[i + 1]; m++) put(o, T::GetPreviousUnicodeCharByteCount(t.p + b[i + 1], m));
    o += ';';
    for (size_t k = 0; k < n + 2; k++) put(o, T::GetUnicodeCharStringByteCount(t.p, (int)k));
    // without limit, and without terminator within the limit
    Text u(s, false);
    put(o, T::GetUnicodeCharCount(u.p, (int)s.size()));
    for (size_t i = 0; i < n; i++)
    {
        uint32_t code = 0;
        int r = T::ReadUnicodeChar(u.p + b[i], &code);
        put(o, T::ValidateUnicodeChar(u.p + b[i]) == r);
        put(o, r); put(o, code);
    }
    return o;
}

template <class A, class B> static void relation(std::string& o, const A& a, const B& b)
{
    o += (a == b) ? '1' : '0'; o += (a != b) ? '1' : '0'; o += (a < b) ? '1' : '0'; o += (a <= b) ? '1' : '0'; o += (a > b) ? '1' : '0'; o += (a >= b) ? '1' : '0';
    o += ',';
}
template <class K> static void keyRelation(std::string& o, const char* a, const char* b)
{
    K k(a);
    o += (k == b) ? '1' : '0'; o += (k != b) ? '1' : '0'; o += (k < b) ? '1' : '0';
    K l(b);
    o += (k == l) ? '1' : '0'; o += (k < l) ? '1' : '0';
    l = a;
    o += (l == a) ? '1' : '0';
    o += ',';
}
static std::string compared(const std::string& a, const std::string& b, const std::vector<long>& limits)
{
    Text s(a), t(b);
    const char *p = s.p, *q = t.p;
    std::string o;
    for (bool x : { T::CompareText(p, q), T::CompareTextCaseless(p, q), T::CompareTextLessThan(p, q), T::CompareTextLessThanCaseless(p, q), T::CompareTextLessEqual(p, q),
                    T::CompareTextLessEqualCaseless(p, q), T::CompareNumberedTextLessThan(p, q), T::CompareNumberedTextLessThanCaseless(p, q) }) o += x ? '1' : '0';
    o += ';';
    for (long l : limits)
    {
        int m = (int)l;
        // the limit counts: nothing lies behind it
        Text u(a.substr(0, std::min<size_t>(m, a.size())), (size_t)m > a.size()), v(b.substr(0, std::min<size_t>(m, b.size())), (size_t)m > b.size());
        p = u.p; q = v.p;
        for (bool x : { T::CompareText(p, q, m), T::CompareTextCaseless(p, q, m), T::CompareTextLessThan(p, q, m), T::CompareTextLessThanCaseless(p, q, m), T::CompareTextLessEqual(p, q, m),
                        T::CompareTextLessEqualCaseless(p, q, m) }) o += x ? '1' : '0';
        o += ',';
    }
    o += ';';
    p = s.p; q = t.p;
    TS::String<> d(p), e(q);
    TS::String<160> f(p), g(q);
    relation(o, d, q); relation(o, f, q); relation(o, d, (const char*)e); relation(o, f, (const char*)g);
    o += (d == e) ? '1' : '0'; o += (d != e) ? '1' : '0'; o += (f == g) ? '1' : '0'; o += (f != g) ? '1' : '0';
    o += ';';
    keyRelation<TS::ConstCharKey>(o, p, q); keyRelation<TS::StringKey>(o, p, q); keyRelation<TS::FileNameKey>(o, p, q);
    TS::ConstCharKey k(d); TS::StringKey l(f); TS::FileNameKey h(d);
    o += (k == p && l == p && h == p) ? '1' : '0';
    o += ';';
    if (*q) { put(o, T::FindText(p, q)); put(o, T::FindTextCaseless(p, q)); }
    o += T::Hash(p) == T::Hash(d) ? '1' : '0';
    o += ';';
    return o;
}
static std::string searched(const std::string& a, const std::vector<long>& needles, const std::vector<long>& limits)
{
    Text s(a);
    std::string o;
    for (long k : needles)
    {
        put(o, T::FindChar(s.p, (uint32_t)k));
        put(o, T::FindUnquotedChar(s.p, (uint32_t)k));
        for (long l : limits)
        {
            Text u(a.substr(0, std::min<size_t>(l, a.size())), (size_t)l > a.size());
            put(o, T::FindChar(u.p, (uint32_t)k, (int)l)); put(o, T::CountChars(u.p, (uint32_t)k, (int)l));
        }
        o += ';';
    }
    put(o, T::GetResourceNameLength(s.p)); put(o, T::GetDirectoryPathLength(s.p)); put(o, T::GetPrefixDirectoryLength(s.p));
    return o;
}

template <class F> static std::string limited(F f, int most)
{
    std::string o;
    for (int m = 0; m <= most; m++) { Room<char> r(m + 1); int n = f(r.at(), m); o += untilZero(r) + ':' + num(n) + ';'; }
    return o;
}
template <class S> static std::string text(const S& s) { return hex((const char*)s) + ':' + num(s.GetStringLength()) + ';'; }
template <int N, class V> static void stringsOf(std::string& o, V v)
{
    o += text(TS::String<N>(v));
    TS::String<N> s("x"); s = v; o += text(s);
    s += v; o += text(s);
    o += text(TS::String<N>("ab") + v);
}
static std::string integer(const std::vector<long>& b)
{
    std::string o;
    uint64_t u = 0;
    for (long x : b) u = u << 8 | (uint64_t)x;
    if (b.size() == 4)
    {
        int32_t i = (int32_t)(uint32_t)u;
        o += limited([&](char* t, int m) { return T::IntegerToString(i, t, m); }, 13);
        o += text(T::IntegerToString(i));
        stringsOf<0>(o, i); stringsOf<64>(o, i); stringsOf<5>(o, i);
        o += '|';
        stringsOf<0>(o, (uint32_t)u); stringsOf<64>(o, (uint32_t)u); stringsOf<5>(o, (uint32_t)u);
        o += '|';
        o += text(T::IntegerToHexString8((uint32_t)u)) + text(T::IntegerToHexString4((uint32_t)u)) + text(T::IntegerToHexString2((uint32_t)u));
        o += text(T::TypeToString((uint32_t)u)) + text(T::TypeToHexCharString((uint32_t)u));
    }
    else
    {
        int64_t i = (int64_t)u;
        o += limited([&](char* t, int m) { return T::Integer64ToString(i, t, m); }, 23);
        o += text(T::Integer64ToString(i));
        stringsOf<0>(o, (TS::int64)i); stringsOf<64>(o, (TS::int64)i); stringsOf<5>(o, (TS::int64)i);
        o += '|';
        if (i >= 0)
        {
            TS::String<> a("x"); a += (TS::uint64)u; o += text(a);
            TS::String<64> c("x"); c += (TS::uint64)u; o += text(c);
            TS::String<5> d("x"); d += (TS::uint64)u; o += text(d);
        }
        o += '|';
        o += text(T::Integer64ToHexString16(u));
    }
    return o;
}
static std::string readers(const std::string& kind, const std::string& s, const std::vector<long>& limits)
{
    std::string o;
    Text t(s);
    if (kind == "ReadType")
    {
        for (long l : limits) { (void)l; uint32_t v = 7; int n = T::ReadType(t.p, &v); o += num(v) + ':' + num(n) + ';'; }
    }
    else for (long m : limits)
    {
        Room<char> r(m + 1);
        int n = kind == "ReadInteger" ? T::ReadInteger(t.p, r.at(), (int)m) : kind == "ReadFloat" ? T::ReadFloat(t.p, r.at(), (int)m) : T::ReadString(t.p, r.at(), (int)m);
        o += untilZero(r) + ':' + num(n) + ';';
    }
    o += num(T::StringToType(t.p));
    return o;
}

static std::string repeated(const std::string& p, size_t n, const std::string& e) { std::string r; r.reserve(p.size() * n + e.size()); for (size_t i = 0; i < n; i++) r += p; return r + e; }
template <class C> static size_t lengthOf(const Room<C>& r, const C* whole)   // of a converted text; it must be a beginning of the whole
{
    size_t n = 0;
    while (n < r.n && r.at()[n]) n++;
    return n < r.n && r.ok() && memcmp(r.at(), whole, n * sizeof(C)) == 0 ? n : 999999999;
}
// all functions on texts in which a part is repeated n times
static std::string longTexts(const std::vector<std::string>& w)
{
    std::string part = unhex(w[1]), e1 = unhex(w[2]), e2 = unhex(w[3]);
    long extra = atol(w[4].c_str()), chars = atol(w[7].c_str()), n = atol(w[8].c_str());
    auto needles = nums(w[9]);
    std::vector<long> up = nums(w[5]), ue = nums(w[6]), uw;
    for (long i = 0; i < n; i++) uw.insert(uw.end(), up.begin(), up.end());
    uw.insert(uw.end(), ue.begin(), ue.end());
    std::string a = repeated(part, n, e1), b = repeated(part, n + extra, e2), o;
    Text s(a), t(b), e(e2);
    const char *p = s.p, *q = t.p;
    for (bool x : { T::CompareText(p, q), T::CompareTextCaseless(p, q), T::CompareTextLessThan(p, q), T::CompareTextLessThanCaseless(p, q), T::CompareTextLessEqual(p, q),
                    T::CompareTextLessEqualCaseless(p, q), T::CompareNumberedTextLessThan(p, q), T::CompareNumberedTextLessThanCaseless(p, q) }) put(o, x);
    long size = (long)part.size();
    for (int j = 0; j < 3; j++)
    {
        int m = (int)(n * size + j);
        for (bool x : { T::CompareText(p, q, m), T::CompareTextCaseless(p, q, m), T::CompareTextLessThan(p, q, m), T::CompareTextLessThanCaseless(p, q, m), T::CompareTextLessEqual(p, q, m),
                        T::CompareTextLessEqualCaseless(p, q, m) }) put(o, x);
    }
    if (e2.empty()) o += "-1,-1,"; else { put(o, T::FindText(p, e.p)); put(o, T::FindTextCaseless(p, e.p)); }
    for (long k : needles)
    {
        put(o, T::FindChar(p, (uint32_t)k));
        put(o, T::FindUnquotedChar(p, (uint32_t)k));
        for (int j = 0; j < 3; j++) { put(o, T::FindChar(p, (uint32_t)k, (int)(n * size + j))); put(o, T::CountChars(p, (uint32_t)k, (int)(n * size + j))); }
    }
    put(o, T::GetResourceNameLength(p)); put(o, T::GetDirectoryPathLength(p)); put(o, T::GetPrefixDirectoryLength(p));
    Words words(uw);
    put(o, T::GetTextLength(p)); put(o, T::GetUnicodeCharCount(p)); put(o, T::GetWideTextCharCount(p)); put(o, T::GetUnicodeStringLength(words.p));
    for (int j = 0; j < 3; j++)
    {
        put(o, T::GetUnicodeCharCount(p, (int)(n * size + j)));
        put(o, T::GetUnicodeCharStringByteCount(p, (int)(n * chars + j)));
        long mu = n * (long)up.size() + j, mb = n * size + j;
        Room<uint16_t> ru(mu + 1);
        T::ConvertStringToWideText(p, ru.at(), (int)mu);
        put(o, lengthOf<uint16_t>(ru, words.p));
        Room<char> rb(mb + 1);
        T::ConvertWideTextToString(words.p, rb.at(), (int)mb);
        put(o, lengthOf<char>(rb, p));
    }
    // strings made of them
    TS::String<> d(p), f(q), g(words.p);
    if (!(d == p) || !(g == p) || d.GetStringLength() != (int)a.size() || (d == f) != (a == b)) o += "!string";
    return o;
}

// a piece of memory without anything around it, operations on it, and what it holds after each
static std::string copying(const std::string& filling, const std::string& ops, size_t scale)
{
    std::string first = unhex(filling), o;
    char* m = (char*)malloc(first.size() * scale);
    for (size_t i = 0; i < first.size(); i++) memset(m + i * scale, first[i], scale);
    for (auto& x : split(ops, '|'))
    {
        auto a = split(x, ',');
        const std::string& k = a[0];
        long f = atol(a[1].c_str()), t = atol(a[2].c_str()) * (long)scale, n = atol(a[3].c_str()) * (long)scale;
        if (k != "fill") f *= (long)scale;
        long r = 0;
        if (k == "copy") TS::CopyMemory(m + f, m + t, (uint32_t)n);
        else if (k == "fill") TS::FillMemory(m + t, (uint32_t)n, (uint8_t)f);
        else if (k == "clear") TS::ClearMemory(m + t, (uint32_t)n);
        else if (k == "text") r = T::CopyText(m + f, m + t);
        else if (k == "most") r = T::CopyText(m + f, m + t, (int)n);
        else if (k == "length") r = T::GetTextLength(m + f);
        else if (k == "float") { TS::int32 v; memcpy(&v, m + f, 4); const float& w = TS::asfloat(v); memcpy(m + t, &w, 4); }
        else if (k == "ufloat") { TS::uint32 v; memcpy(&v, m + f, 4); const float& w = TS::asfloat(v); memcpy(m + t, &w, 4); }
        else if (k == "int") { float v; memcpy(&v, m + f, 4); const TS::int32& w = TS::asint(v); memcpy(m + t, &w, 4); }
        else if (k == "uint") { float v; memcpy(&v, m + f, 4); const TS::uint32& w = TS::asuint(v); memcpy(m + t, &w, 4); }
        else if (k == "digits") { unsigned char v = (unsigned char)m[f]; m[t] = T::hexDigit[v >> 4]; m[t + 1] = T::hexDigit[v & 15]; }
        else if (k == "apart") r = (long)(TS::GetPointerAddress(m + t) - TS::GetPointerAddress(m + f));
        else return "?";
        std::string now;
        for (size_t i = 0; i < first.size(); i++)
        {
            char* u = m + i * scale;
            if (memcmp(u, u + 1, scale - 1) != 0) o += "!mixed";
            now.push_back(*u);
        }
        o += num(r) + ':' + hex(now) + ';';
    }
    free(m);
    return o;
}

int main()
{
    serve([](const std::string& line) -> std::string {
        auto w = split(line);
        std::string o;
        if (w[0] == "codes") { for (long c = atol(w[1].c_str()), e = c + atol(w[2].c_str()); c < e; c++) o += encoded((uint32_t)c); return o; }
        if (w[0] == "wides") { for (auto& x : split(w[1], ';')) { auto u = nums(x); std::string a = toNarrow(u, 0); o += a + '/'; } return o; }
        if (w[0] == "judge") { for (auto& x : split(w[1], ',')) o += judged(unhex(x)); return o; }
        if (w[0] == "counted") return counted(unhex(w[1]), nums(w[2]));
        if (w[0] == "towide") return toWide(unhex(w[1]), atoi(w[2].c_str()));
        if (w[0] == "tonarrow") return toNarrow(nums(w[1]), atoi(w[2].c_str()));
        if (w[0] == "compare") return compared(unhex(w[1]), unhex(w[2]), nums(w[3]));
        if (w[0] == "search") return searched(unhex(w[1]), nums(w[2]), nums(w[3]));
        if (w[0] == "hash")
        {
            for (auto& h : HASHES) { Text t(std::string(h.text, h.length)); o += T::Hash(t.p) == h.hash ? '1' : '0'; }
            o += T::Hash("") == 0 ? '1' : '0';
            return o;
        }
        if (w[0] == "integer") return integer(nums(w[1]));
        if (w[0] == "read") return readers(w[1], unhex(w[2]), nums(w[3]));
        if (w[0] == "long") return longTexts(w);
        if (w[0] == "copying") return copying(w[1], w[2], (size_t)atol(w[3].c_str()));
        return "?";
    });
}
