// Serves histories of two arrays: "<type> <op>,<array>,<x>,<v>|..."; answers per operation: result:array1:array2 (values), or an error.
#include "common.h"
#include <memory>
#include <new>
#include <set>
#include <type_traits>
#ifdef VH_ASAN
#define VH_MEASURED 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
#define VH_MEASURED 0
inline size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

namespace
{
std::string error;
void fail(const char* m) { if (error.empty()) error = m; }

// An element that owns memory and knows where it lives.
struct Tracked
{
    static std::set<const Tracked*>& live() { static std::set<const Tracked*> s; return s; }
    const Tracked* self;
    int* value;
    void born() { self = this; if (!live().insert(this).second) fail("an object is constructed over a living one"); }
    static const Tracked& alive(const Tracked& t) { if (t.self != &t || !live().count(&t)) { fail("an object is used that does not live"); } return t; }
    Tracked() : value(new int(0)) { born(); }
    Tracked(int v) : value(new int(v)) { born(); }
    Tracked(const Tracked& t) { value = live().count(&t) && t.value ? new int(*t.value) : nullptr; alive(t); born(); }
    Tracked(Tracked&& t) { alive(t); value = t.value; t.value = nullptr; born(); }
    Tracked& operator=(const Tracked& t) { alive(*this); alive(t); int* n = t.value ? new int(*t.value) : nullptr; delete value; value = n; return *this; }
    static std::vector<int>*& log() { static std::vector<int>* l = nullptr; return l; }
    ~Tracked() { alive(*this); if (log() && value) log()->push_back(*value); if (live().erase(this)) { delete value; value = nullptr; self = nullptr; } }
    int get() const { alive(*this); return value ? *value : -777; }
    bool operator==(const Tracked& t) const { return get() == t.get(); }
    bool operator!=(const Tracked& t) const { return get() != t.get(); }
};

template <class T> struct Is;
template <> struct Is<Tracked>
{
    static Tracked make(int v) { return Tracked(v); }
    static int get(const Tracked& t) { return t.get(); }
    static const bool pod = false;
    static void count(int n) { if ((int)Tracked::live().size() != n) fail("an element is lost or not destroyed"); }
    static void in(const Tracked* p) { if (!Tracked::live().count(p)) fail("an element of the array does not live"); }
};
template <> struct Is<TS::String<>>
{
    static TS::String<> make(int v) { std::string s = v ? std::to_string(v) + (v % 2 ? std::string(70, 'x') : "") : ""; return TS::String<>(s.c_str()); }
    static int get(const TS::String<>& s)
    {
        int v = s[0] ? atoi(s) : 0;
        if (!(make(v) == s)) return -778;
        return v;
    }
    static const bool pod = false;
    static void count(int) {}
    static void in(const TS::String<>*) {}
};
template <> struct Is<int>
{
    static int make(int v) { return v; }
    static int get(const int& t) { return t; }
    static const bool pod = true;
    static void count(int) {}
    static void in(const int*) {}
};
template <> struct Is<char>
{
    static char make(int v) { return (char)v; }
    static int get(const char& t) { return t; }
    static const bool pod = true;
    static void count(int) {}
    static void in(const char*) {}
};

template <class A> A* fresh(int n);
template <class T, TS::int32 B> struct Fresh { static TS::Array<T, B>* make(int) { return new TS::Array<T, B>; } };
template <class T> struct Fresh<T, 0> { static TS::Array<T, 0>* make(int n) { return n ? new TS::Array<T, 0>(n) : new TS::Array<T, 0>; } };

template <class T, TS::int32 B>
std::string history(const std::vector<std::string>& ops)
{
    using A = TS::Array<T, B>;
    std::string out;
    std::unique_ptr<A> a[3];
    a[1].reset(Fresh<T, B>::make(0));
    a[2].reset(Fresh<T, B>::make(0));
    for (size_t s = 0; s < ops.size(); s++)
    {
        auto f = vh::split(ops[s], ',');
        const std::string& op = f[0];
        int m = atoi(f[1].c_str()), x = atoi(f[2].c_str()), v = atoi(f[3].c_str());
        A& t = *a[m];
        int before = t.GetArrayElementCount(), res = 0;
        T* p = nullptr;
        bool append = false;
        const T* place = t.begin();
        std::vector<int> gone;
        const bool ends = op == "clear" || op == "purge" || op == "set" || op == "seti" || op == "reml";
        size_t held = __sanitizer_get_current_allocated_bytes();
        {
            if (op == "app") { T e(Is<T>::make(v)); p = t.AppendArrayElement(e); append = true; if (Is<T>::get(e) != v) fail("the object that is copied changes"); }
            else if (op == "appm") { p = t.AppendArrayElement(Is<T>::make(v)); append = true; }
            else if (op == "appd") { p = t.AppendArrayElement(); append = true; }
            else if (op == "ins") { const T e(Is<T>::make(v)); t.InsertArrayElement(x, e); if (Is<T>::get(e) != v) fail("the object that is copied changes"); }
            else if (op == "insm") t.InsertArrayElement(x, Is<T>::make(v));
            else if (ends)
            {
                T e(Is<T>::make(v));
                gone.reserve((size_t)before + 4);
                held = __sanitizer_get_current_allocated_bytes();
                Tracked::log() = &gone;
                if (op == "reml") t.RemoveLastArrayElement();
                else if (op == "set") t.SetArrayElementCount(x);
                else if (op == "seti") t.SetArrayElementCount(x, e);
                else if (op == "clear") t.ClearArray();
                else t.PurgeArray();
                Tracked::log() = nullptr;
                // a purged array gives its storage back
                if (op == "purge" && VH_MEASURED && before > (int)B && __sanitizer_get_current_allocated_bytes() + sizeof(T) * (size_t)before > held) fail("a purged array keeps its storage");
            }
            else if (op == "rem") t.RemoveArrayElement(x);
            else if (op == "rsv") t.ReserveArrayElementCount(x);
            else if (op == "new") a[m].reset(Fresh<T, B>::make(x));
            else if (op == "copy") a[m].reset(new A(*a[3 - m]));
            else if (op == "move") a[m].reset(new A(static_cast<A&&>(*a[3 - m])));
            else if (op == "write") t[x] = Is<T>::make(v);
            else if (op == "find") { T e(Is<T>::make(v)); res = t.FindArrayElementIndex(e); }
            else if (op == "eq") res = *a[1] == *a[2];
            else if (op == "fill") for (int i = 1; i <= x; i++) t.AppendArrayElement(Is<T>::make(i));
            else abort();
        }
        A& n = *a[m];
        if (append) { res = n.GetArrayElementCount() - 1; if (p != n.begin() + res) fail("the pointer returned is not that of the new element"); }
        if (Is<T>::pod)   // what a plain object is without an initial value is not defined
        {
            if (op == "appd") n[res] = T();
            if (op == "set") for (int i = before; i < n.GetArrayElementCount(); i++) n[i] = T();
            if ((op == "ins" || op == "insm")) for (int i = before; i < x; i++) n[i] = T();
        }
        out += std::to_string(res) + (op != "new" && op != "copy" && op != "move" && n.begin() != place ? "m" : "s") + (std::is_same<T, Tracked>::value ? "" : "-");
        for (int g : gone) out += std::to_string(g) + ",";
        int total = 0;
        for (int k = 1; k <= 2; k++)
        {
            const A& c = *a[k];
            out += ":";
            int i = 0;
            for (const T& e : c)
            {
                Is<T>::in(&e);
                out += (i ? "," : "") + std::to_string(Is<T>::get(e));
                if (&e != &c[i]) fail("iteration and subscripts differ");
                i++;
                if (i > 1000) break;
            }
            if (i != c.GetArrayElementCount() || c.Empty() != (i == 0) || c.end() - c.begin() != i) fail("the number of elements is wrong");
            total += i;
        }
        Is<T>::count(total);
        out += "|";
        if (!error.empty()) return out;
    }
    a[1].reset();
    a[2].reset();
    Is<T>::count(0);
    return out;
}
}

int main()
{
    vh::serve([](const std::string& line) {
        auto a = vh::split(line);
        auto ops = vh::split(a[1], '|');
        error.clear();
        Tracked::live().clear();
        std::string out;
        out.reserve(1 << 18);
        size_t before = __sanitizer_get_current_allocated_bytes();
        {
            std::string o;
            switch (atoi(a[0].c_str()))
            {
                case 0: o = history<Tracked, 0>(ops); break;
                case 1: o = history<Tracked, 1>(ops); break;
                case 2: o = history<Tracked, 3>(ops); break;
                case 3: o = history<Tracked, 8>(ops); break;
                case 4: o = history<TS::String<>, 0>(ops); break;
                case 5: o = history<TS::String<>, 4>(ops); break;
                case 6: o = history<int, 0>(ops); break;
                case 7: o = history<char, 0>(ops); break;
                case 8: o = history<int, 5>(ops); break;
            }
            out.append(o.data(), o.size());
        }
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (error.empty() && after != before) fail("memory is not released");
        return (error.empty() ? std::string("ok ") : "error " + error + " @") + out;
    });
}
