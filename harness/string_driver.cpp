// Serves histories of two strings: "<cap> <op>,<string>,<x>,<k>|..." with numbers and texts as in lib/string_check.py.
// Answers per operation: length, hash, length, hash, order.
#include "common.h"
#include "string_tables.h"
#include <memory>
#include <type_traits>
#ifdef VH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
inline size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

namespace
{
std::string error;
void fail(const char* m) { if (error.empty()) error = m; }
std::string pat(int n, int k)
{
    std::string s;
    for (int i = 1; i <= n; i++) s.push_back((char)TABLE[(i + 5 * k) % (int)sizeof TABLE]);
    return s;
}
int hash(const std::string& s)
{
    int h = 7;
    for (unsigned char c : s) h = (h * 31 + c) % 1000003;
    return h;
}
// A text that ends where its memory ends; without a NUL if it is given with its length.
struct Exact
{
    std::unique_ptr<char[]> p;
    Exact(const std::string& s, bool terminated) : p(new char[s.size() + (terminated ? 1 : 0)])
    {
        memcpy(p.get(), s.data(), s.size());
        if (terminated) p[s.size()] = 0;
    }
    operator const char*() const { return p.get(); }
};
int sign(bool lt, bool eq) { return eq ? 0 : lt ? -1 : 1; }

template <int cap> struct Dyn { static const bool value = false; };
template <> struct Dyn<0> { static const bool value = true; };

// a fixed string between guards
template <int cap> struct Box
{
    unsigned char before[16];
    TS::String<cap> s;
    unsigned char after[16];
    Box() : s("") { memset(before, 0xA5, 16); memset(after, 0xA5, 16); }
    template <class T> Box(const T& t) : s(t) { memset(before, 0xA5, 16); memset(after, 0xA5, 16); }
    Box(const char* t, int n) : s(t, n) { memset(before, 0xA5, 16); memset(after, 0xA5, 16); }
    void check() const { for (int i = 0; i < 16; i++) if (before[i] != 0xA5 || after[i] != 0xA5) fail("memory beside the string is changed"); }
};

// A string that was just made: terminated where its length says, and it can grow within and beyond its storage.
template <class S> void grows(const S& made)
{
    if ((int)strlen(made) != made.GetStringLength()) fail("a string that was just made is not terminated where its length says");
}
inline void grow(TS::String<>& s)
{
    std::string was((const char*)s, (size_t)s.GetStringLength());
    for (int i = 0; i < 70; i++) s += (char)('A' + i % 26);
    for (int i = 0; i < 70; i++) was += (char)('A' + i % 26);
    if (was != (const char*)s) fail("a string that was just made does not grow");
}

template <class F> void number(int x, F f)
{
    const Number& n = NUMBERS[x - 1];
    if (n.type == 3) { f((float)n.value / 1024.0f); return; }
    if (n.type == 0) f((TS::int32)n.value);
    else if (n.type == 1) f((TS::uint32)n.value);
    else f((TS::int64)n.value);
}

template <int cap>
std::string history(const std::vector<std::string>& ops)
{
    using S = TS::String<cap>;
    using B = Box<cap>;
    constexpr bool dyn = cap == 0;
    std::unique_ptr<B> b[3];
    b[1].reset(new B);
    b[2].reset(new B);
    std::string out;
    for (auto& line : ops)
    {
        auto f = vh::split(line, ',');
        const std::string& op = f[0];
        int m = atoi(f[1].c_str()), x = atoi(f[2].c_str()), k = atoi(f[3].c_str()), o = 3 - m;
        S& me = b[m]->s;
        S& ot = b[o]->s;
        std::string was1((const char*)b[1]->s), was2((const char*)b[2]->s), wasOther = o == 1 ? was1 : was2;
        S* ret = &me;
        if (op == "new") { Exact t(pat(x, k), true); std::unique_ptr<B> n(new B((const char*)t)); b[m] = std::move(n); ret = &b[m]->s; }
        else if (op == "newn") { bool whole = x <= 7 * k; Exact t(whole ? pat(x, k) : pat(x, k).substr(0, (size_t)(7 * k)), whole && x < 7 * k); std::unique_ptr<B> n(new B((const char*)t, 7 * k)); b[m] = std::move(n); ret = &b[m]->s; }
        else if (op == "newint") { std::unique_ptr<B> n; number(x, [&](auto v) { n.reset(new B(v)); }); b[m] = std::move(n); ret = &b[m]->s; }
        else if (op == "copyc") { std::unique_ptr<B> n(new B((const S&)ot)); b[m] = std::move(n); ret = &b[m]->s; }
        else if (op == "asg") { Exact t(pat(x, k), true); ret = &(me = (const char*)t); }
        else if (op == "set") { bool whole = x <= 7 * k; Exact t(whole ? pat(x, k) : pat(x, k).substr(0, (size_t)(7 * k)), whole && x < 7 * k); ret = &me.Set(t, 7 * k); }
        else if (op == "asgint") number(x, [&](auto v) { ret = &(me = v); });
        else if (op == "appint") number(x, [&](auto v) { if constexpr (!std::is_same<decltype(v), float>::value) ret = &(me += v); else abort(); });
        else if (op == "plusint") number(x, [&](auto v) { if constexpr (!std::is_same<decltype(v), float>::value) { S r = ot + v; grows(r); me = (const S&)r; if constexpr (dyn) grow(r); } else abort(); });
        else if (op == "assign") ret = &(me = (const S&)ot);
        else if (op == "self") { const S& c = me; ret = &(me = c); }
        else if (op == "app") { Exact t(pat(x, k), true); ret = &(me += (const char*)t); }
        else if (op == "appn") { bool whole = x <= 7 * k; Exact t(whole ? pat(x, k) : pat(x, k).substr(0, (size_t)(7 * k)), whole && x < 7 * k); ret = &me.AppendString(t, 7 * k); }
        else if (op == "apps") { if constexpr (dyn) ret = &(me += (const S&)ot); else ret = &(me += (const char*)ot); }
        else if (op == "appself") ret = &(me += me);
        else if (op == "appc") ret = &(me += (char)x);
        else if (op == "plus") { Exact t(pat(x, k), true); S r = ot + (const char*)t; grows(r); me = (const S&)r; if constexpr (dyn) grow(r); }
        else if (op == "pluss") { S r = me + (const char*)ot; grows(r); me = (const S&)r; if constexpr (dyn) grow(r); }
        else if (op == "newc") { char t[4] = {(char)x, 0, 0, 0}; if (k) { t[1] = 10; t[2] = (char)x; } std::unique_ptr<B> n(new B((const char*)t)); b[m] = std::move(n); ret = &b[m]->s; }
        else if constexpr (dyn)
        {
            if (op == "neww") { std::unique_ptr<B> n(new B); n->s = S(WIDES[x - 1]); b[m] = std::move(n); ret = &b[m]->s; S direct(WIDES[x - 1]); if (!(direct == b[m]->s)) fail("a string made from 16-bit units changes when it is moved"); }
            else if (op == "movec")
            {
                std::unique_ptr<B> n(new B); n.reset(new B(S("")));
                S moved(static_cast<S&&>(ot));
                std::string left((const char*)ot, (size_t)ot.GetStringLength());
                if (!left.empty() && left != wasOther) fail("a string that was moved from holds neither nothing nor what it held");
                if (left.size() != strlen(ot)) fail("a string that was moved from is not terminated");
                ot = "";
                n->s = (const S&)moved;
                b[m] = std::move(n);
                ret = &b[m]->s;
            }
            else if (op == "movea")
            {
                ret = &(me = static_cast<S&&>(ot));
                std::string left((const char*)ot, (size_t)ot.GetStringLength());
                if (!left.empty() && left != wasOther) fail("a string that was moved from holds neither nothing nor what it held");
                if (left.size() != strlen(ot)) fail("a string that was moved from is not terminated");
                ot = "";
            }
            else if (op == "moveapp")
            {
                ret = &(me = static_cast<S&&>(ot));
                std::string left((const char*)ot, (size_t)ot.GetStringLength());
                if (!left.empty() && left != wasOther) fail("a string that was moved from holds neither nothing nor what it held");
                if (!left.empty()) ot = "";
                Exact t(pat(x, k), true);
                ot += (const char*)t;
            }
            else if (op == "fresh") { S d; grows(d); if (d.GetStringLength() != 0 || *(const char*)d != 0) fail("a string made from nothing is not empty"); S e; e += 'z'; if (!(e == "z")) fail("a string made from nothing is not empty"); grow(d); me = (const S&)S(); }
            else if (op == "moveself") { S& c = me; ret = &(me = static_cast<S&&>(c)); }
            else if (op == "len")
            {
                int old = me.GetStringLength();
                ret = &me.SetStringLength(x);
                for (int i = old; i < x; i++) me[i] = 'f';
                if (me[x] != 0) fail("a string whose length is set is not terminated");
            }
            else if (op == "purge") me.PurgeString();
            else if (op == "lower") ret = &me.ConvertToLowerCase();
            else if (op == "upper") ret = &me.ConvertToUpperCase();
            else if (op == "rep") ret = &me.ReplaceChar((char)x, (char)k);
            else if (op == "esc") ret = &me.EncodeEscapeSequences();
            else abort();
        }
        else
        {
            if (op == "len") { if (x <= me.GetStringLength()) ret = &me.SetStringLength(x); }
            else abort();
        }
        if (ret != &b[m]->s) fail("the string returned is not the one operated on");
        for (int i = 1; i <= 2; i++)
        {
            b[i]->check();
            const S& s = b[i]->s;
            std::string t((const char*)s);
            if ((int)t.size() != s.GetStringLength()) fail("the length is not that of the text");
            out += std::to_string(s.GetStringLength()) + "," + std::to_string(hash(t)) + ",";
        }
        const S &p = b[1]->s, &q = b[2]->s;
        Exact tq(std::string((const char*)q), true);
        bool eq = p == q, lt = p < (const char*)q;
        if (eq == (p != q) || eq != (p == (const char*)tq) || eq == (p != (const char*)tq) || lt == (p >= (const char*)tq) || (lt || eq) != (p <= (const char*)tq) || (!lt && !eq) != (p > (const char*)tq))
            fail("the comparisons contradict each other");
        out += std::to_string(sign(lt, eq)) + "|";
        if (!error.empty()) return out;
    }
    return out;
}
}

int main()
{
    vh::serve([](const std::string& line) {
        auto a = vh::split(line);
        auto ops = vh::split(a[1], '|');
        error.clear();
        std::string out;
        out.reserve(1 << 18);
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            std::string o;
            switch (atoi(a[0].c_str()))
            {
                case -1: o = history<0>(ops); break;
                case 1: o = history<1>(ops); break;
                case 4: o = history<4>(ops); break;
                case 15: o = history<15>(ops); break;
                case 64: o = history<64>(ops); break;
                case 255: o = history<255>(ops); break;
            }
            out.append(o.data(), o.size());
        }
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (error.empty() && after != before) fail("memory is not released");
        return (error.empty() ? std::string("ok ") : "error " + error + " @") + out;
    });
}
