// Used by the generated programs that bind structures to documents (lib/bind_check.py).
#pragma once
#include "common.h"
#ifndef JSON4C4_DISABLE_STD_SUPPORT
#include <map>
#include <string>
#include <vector>
#endif
#include <map>
#include <fstream>
#include <sstream>

namespace vh
{
// Data in text form: s<hex>. n<bits>. T F Z [..] {k<hex>.<data>..} (..)
struct Reader
{
    const std::string& s;
    size_t i = 0;
    char peek() const { return s[i]; }
    void want(char c) { if (s[i] != c) { fprintf(stderr, "bad data at %zu\n", i); exit(4); } i++; }
    std::string word() { size_t j = s.find('.', i); std::string r = s.substr(i, j - i); i = j + 1; return r; }
};

inline void load(TS::String<>& x, Reader& r) { r.want('s'); x = unhex(r.word()).c_str(); }
inline void load(std::string& x, Reader& r) { r.want('s'); x = unhex(r.word()); }
inline void load(double& x, Reader& r) { r.want('n'); uint64_t u = strtoull(r.word().c_str(), nullptr, 16); memcpy(&x, &u, 8); }
inline void load(bool& x, Reader& r) { x = r.peek() == 'T'; r.i++; }
inline void load(Json::Null&, Reader& r) { r.want('Z'); }
template <class T> void load(TS::Array<T>& x, Reader& r);
template <class T> void load(std::vector<T>& x, Reader& r);
template <class T> void load(Json::ObjectMap<T>& x, Reader& r);
template <class T> void load(std::map<std::string, T>& x, Reader& r);
template <class T> void load(TS::Array<T>& x, Reader& r)
{
    r.want('[');
    x.PurgeArray();
    while (r.peek() != ']') { T t; load(t, r); x.AppendArrayElement(t); }
    r.want(']');
}
template <class T> void load(std::vector<T>& x, Reader& r)
{
    r.want('[');
    x.clear();
    while (r.peek() != ']') { T t; load(t, r); x.push_back(std::move(t)); }
    r.want(']');
}
template <class T> void load(Json::ObjectMap<T>& x, Reader& r)
{
    r.want('{');
    while (r.peek() != '}')
    {
        r.want('k');
        auto* e = new Json::ObjectMapElement<T>;
        e->name = unhex(r.word()).c_str();
        load(e->data, r);
        x.InsertMapElement(e);
    }
    r.want('}');
}
template <class T> void load(std::map<std::string, T>& x, Reader& r)
{
    r.want('{');
    while (r.peek() != '}') { r.want('k'); std::string k = unhex(r.word()); load(x[k], r); }
    r.want('}');
}

inline void show(const TS::String<>& x, std::string& o) { o += "s"; std::string b = bytesOf(x); if (b.size() != strlen(static_cast<const char*>(x))) o += "!len"; puthex(o, b.data(), b.size()); o += "."; }
inline void show(const std::string& x, std::string& o) { o += "s"; puthex(o, x.data(), x.size()); o += "."; }
inline void show(const double& x, std::string& o) { o += "n"; putbits(o, x); o += "."; }
inline void show(const bool& x, std::string& o) { o += x ? "T" : "F"; }
inline void show(const Json::Null&, std::string& o) { o += "Z"; }
template <class T> void show(const TS::Array<T>& x, std::string& o);
template <class T> void show(const std::vector<T>& x, std::string& o);
template <class T> void show(const Json::ObjectMap<T>& x, std::string& o);
template <class T> void show(const std::map<std::string, T>& x, std::string& o);
template <class T> void show(const TS::Array<T>& x, std::string& o) { o += "["; for (const T& t : x) show(t, o); o += "]"; }
template <class T> void show(const std::vector<T>& x, std::string& o) { o += "["; for (const T& t : x) show(t, o); o += "]"; }
template <class T> void show(const Json::ObjectMap<T>& x, std::string& o)
{
    std::vector<std::pair<std::string, std::string>> es;
    for (const auto* e : x) { std::string d; show(e->data, d); es.push_back({ bytesOf(e->name), d }); }
    std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
    o += "{";
    for (auto& e : es) { o += "k" + hex(e.first) + "." + e.second; }
    o += "}";
}
template <class T> void show(const std::map<std::string, T>& x, std::string& o)
{
    o += "{";
    for (auto& e : x) { o += "k" + hex(e.first) + "."; show(e.second, o); }
    o += "}";
}

extern const char* scratchFile;
inline std::string slurp(const char* f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream ss; ss << i.rdbuf();
    return ss.str();
}

// <parse status> <validate status> <deserialise status> <data> <flags>
template <class T>
std::string doLoad(const std::string& old, const std::string& doc)
{
    Json::StructuredData sd;
    {
        Buffer b(doc);
        Json::ParseResult pr = sd.Parse(b.a);
        if (pr.status != Json::Status::kOk) return "reject";
    }
    std::string before = dump(sd.GetRootJsonValue());
    T x;
    Reader r { old };
    load(x, r);
    Json::Status v = Json::Validate(sd, x);
    std::string x0; show(x, x0);
    Json::Status d = sd.DeserializeTo(x);
    std::string x1; if (d == Json::Status::kOk) show(x, x1); else x1 = "none";
    std::string flags = "ok";
    if (x0 != old) flags += ",validation-changed-the-object";
    if (dump(sd.GetRootJsonValue()) != before) flags += ",document-changed";
    if (d == Json::Status::kOk)
    {
        // what was delivered does not depend on the document any more
        sd.SerializeFrom(false);
        std::string x2; show(x, x2);
        if (x2 != x1) flags += ",data-shared-with-the-document";
    }
    return st(v) + " " + st(d) + " " + x1 + " " + flags;
}

// types whose data replace those of an existing value of their kind
template <class T> struct Replaces { static constexpr bool value = false; };
template <> struct Replaces<TS::String<>> { static constexpr bool value = true; };
template <> struct Replaces<std::string> { static constexpr bool value = true; };
template <> struct Replaces<double> { static constexpr bool value = true; };
template <> struct Replaces<bool> { static constexpr bool value = true; };
template <> struct Replaces<Json::Null> { static constexpr bool value = true; };
template <class T> struct Replaces<TS::Array<T>> { static constexpr bool value = true; };
template <class T> struct Replaces<std::vector<T>> { static constexpr bool value = true; };
template <class T> struct Replaces<Json::ObjectMap<T>> { static constexpr bool value = true; };
template <class T> struct Replaces<std::map<std::string, T>> { static constexpr bool value = true; };

// <serialise status> <document> <written bytes> <validate> <deserialise> <data> <after file: status data> <status and document after serialising onto the prior document> <flags>
template <class T>
std::string doStore(const std::string& data, const std::string& prior)
{
    Json::StructuredData sd;
    if (!prior.empty()) { Buffer b(prior); sd.Parse(b.a); }
    T x;
    Reader r { data };
    load(x, r);
    Json::Status s = sd.SerializeFrom(x);
    std::string x0; show(x, x0);
    std::string doc = dump(sd.GetRootJsonValue());
    std::string flags = "ok";
    if (x0 != data) flags += ",data-changed";
    Json::Status w = sd.Write(scratchFile, 0);
    std::string text = w == Json::Status::kOk ? slurp(scratchFile) : st(w);
    Json::Status v = Json::Validate(sd, x);
    std::string y1 = "none";
    Json::Status d;
    {
        T y;
        d = sd.DeserializeTo(y);
        if (d == Json::Status::kOk) { y1.clear(); show(y, y1); }
    }
    std::string y2 = "none";
    Json::Status d2 = Json::Status::kOk;
    if (w == Json::Status::kOk)
    {
        Json::StructuredData sd2;
        d2 = sd2.Parse(scratchFile).status;
        if (d2 == Json::Status::kOk)
        {
            T y;
            d2 = sd2.DeserializeTo(y);
            if (d2 == Json::Status::kOk) { y2.clear(); show(y, y2); }
        }
    }
    // serialising again gives the same document again, and the document does not depend on the object
    {
        T z;
        { Reader r2 { data }; load(z, r2); }
        if (sd.SerializeFrom(z) != s) flags += ",again-status";
    }
    if (dump(sd.GetRootJsonValue()) != doc) flags += ",again-different";
    Json::Status w2 = sd.Write(scratchFile, 0);
    if ((w2 == Json::Status::kOk ? slurp(scratchFile) : st(w2)) != text) flags += ",again-written-different";
    std::string onto = "none none";
    if constexpr (Replaces<T>::value)
    {
        // a value that exists takes the data in the place of its own, if it is of their kind
        Json::Status s2 = Json::Serialize(sd.GetRootJsonValue(), x);
        if (s2 != s || dump(sd.GetRootJsonValue()) != doc) flags += ",replaced-by-itself-different:" + dump(sd.GetRootJsonValue());
        if (!prior.empty())
        {
            Json::StructuredData sd3;
            { Buffer b(prior); sd3.Parse(b.a); }
            onto = st(Json::Serialize(sd3.GetRootJsonValue(), x));
            onto += " " + dump(sd3.GetRootJsonValue());
        }
    }
    ::unlink(scratchFile);
    return st(s) + " " + doc + " " + hex(text) + " " + st(v) + " " + st(d) + " " + y1 + " " + st(d2) + " " + y2 + " " + onto + " " + flags;
}

using Op = std::string (*)(const std::string&, const std::string&);
struct Entry { Op load, store; };
extern std::map<int, Entry>& entries();
template <class T> struct Register { explicit Register(int k) { entries()[k] = { doLoad<T>, doStore<T> }; } };

// while one of these lives, the library is at work (watched by mem_main.cpp)
inline void (*onWatch)(bool) = nullptr;
struct Watch { Watch() { if (onWatch) onWatch(true); } ~Watch() { if (onWatch) onWatch(false); } };

// single operations on a document that exists
template <class T> Json::Status docSer(Json::StructuredData& sd, const std::string& data) { T x; Reader r { data }; load(x, r); Watch w; return sd.SerializeFrom(x); }
template <class T> Json::Status docVal(Json::StructuredData& sd) { T x; Watch w; return Json::Validate(sd, x); }
template <class T> Json::Status docDes(Json::StructuredData& sd, std::string& out, const std::string* old = nullptr)
{
    T x;
    if (old) { Reader r { *old }; load(x, r); }
    Json::Status s;
    { Watch w; s = sd.DeserializeTo(x); }
    if (s == Json::Status::kOk) { out.clear(); show(x, out); }
    // an object whose deserialisation failed for want of memory can be used again
    else if (s == Json::Status::kException) out = "again-" + st(sd.DeserializeTo(x));
    return s;
}
struct DocOps
{
    Json::Status (*ser)(Json::StructuredData&, const std::string&);
    Json::Status (*val)(Json::StructuredData&);
    Json::Status (*des)(Json::StructuredData&, std::string&, const std::string*);
};
extern std::map<int, DocOps>& docOps();
template <class T> struct RegisterDoc { explicit RegisterDoc(int k) { docOps()[k] = { docSer<T>, docVal<T>, docDes<T> }; } };
template <class T> struct RegisterAll { explicit RegisterAll(int k) { Register<T> a(k); RegisterDoc<T> b(k); } };
} // namespace vh
