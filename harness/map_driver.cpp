// Serves histories of two maps: "<elements> <look every k-th step> <op>,<map>,<arg>|..." and answers with JSON observations.
#include "TSMap.h"
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include "common.h"

namespace
{
struct Element : TS::MapElement<Element>
{
    using KeyType = TS::int32;
    TS::int32 key;
    int id;
    std::vector<int>* destroyed;
    std::unique_ptr<std::string> owned;
    Element(int i, std::vector<int>* d) : key(i / 2 - 3), id(i), destroyed(d), owned(new std::string("element " + std::to_string(i))) {}
    ~Element() { destroyed->at((size_t)id)++; }
    const TS::int32& GetKey() const { return key; }
};
using Map = TS::Map<Element>;

void tree(const Element* e, std::string& o, int depth = 0)
{
    if (!e || depth > 64) { o += "[]"; return; }
    o += "[";
    tree(e->GetLeftSubnode(), o, depth + 1);
    o += "," + std::to_string(e->id) + ",";
    tree(e->GetRightSubnode(), o, depth + 1);
    o += "]";
}
std::string list(const std::vector<int>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}
}

int main()
{
    vh::serve([](const std::string& line) {
        auto a = vh::split(line);
        int n = atoi(a[0].c_str()), every = atoi(a[1].c_str());
        auto ops = vh::split(a[2], '|');
        std::vector<int> destroyed((size_t)n, 0), base((size_t)n, 0);
        std::vector<Element*> el((size_t)n);
        for (int i = 0; i < n; i++) el[(size_t)i] = new Element(i, &destroyed);
        std::unique_ptr<Map> maps[3];
        maps[1].reset(new Map);
        maps[2].reset(new Map);
        std::string out = "[";
        auto alive = [&](int i) { return destroyed[(size_t)i] == base[(size_t)i]; };
        for (size_t s = 0; s < ops.size(); s++)
        {
            auto f = vh::split(ops[s], ',');
            const std::string& op = f[0];
            int m = atoi(f[1].c_str()), x = atoi(f[2].c_str());
            int res = 0;
            if (op == "ins") res = maps[m]->InsertMapElement(el[(size_t)x]);
            else if (op == "rsv")
            {
                TS::MapReservation rv;
                res = maps[m]->ReserveMapElement(el[(size_t)x]->key, &rv);
                if (res) maps[m]->InsertMapElement(el[(size_t)x], &rv);
            }
            else if (op == "rep") { Element* e = maps[m]->InsertReplaceMapElement(el[(size_t)x]); res = e ? e->id : -1; }
            else if (op == "rem") maps[m]->RemoveMapElement(el[(size_t)x]);
            else if (op == "det") el[(size_t)x]->Detach();
            else if (op == "del") delete el[(size_t)x];
            else if (op == "make") { base[(size_t)x] = destroyed[(size_t)x]; el[(size_t)x] = new Element(x, &destroyed); }
            else if (op == "find") { Element* e = maps[m]->FindMapElement(x - 3); res = e ? e->id : -1; }
            else if (op == "purge") maps[m]->PurgeMap();
            else if (op == "clear") maps[m]->RemoveAllMapElements();
            else if (op == "destroy") maps[m].reset(new Map);
            std::vector<int> dead;
            for (int i = 0; i < n; i++)
            {
                if (!alive(i)) dead.push_back(i);
                if (destroyed[(size_t)i] - base[(size_t)i] > 1) dead.push_back(1000 + i);
            }
            out += std::string(s ? "," : "") + "{\"res\":" + std::to_string(res) + ",\"dead\":" + list(dead) + ",\"maps\":[";
            if (s % (size_t)every == 0 || s + 1 == ops.size())
                for (int k = 1; k <= 2; k++)
                {
                    const Map& mp = *maps[k];
                    std::string t;
                    tree(mp.GetRootMapElement(), t);
                    std::vector<int> fwd, bwd, idx;
                    bool own = true;
                    int guard = 0;
                    for (Element* e : mp) { fwd.push_back(e->id); if (++guard > n) break; }
                    guard = 0;
                    for (Element* e = mp.GetLastMapElement(); e; e = e->GetPreviousMapElement()) { bwd.push_back(e->id); if (++guard > n) break; }
                    for (int i = 0; i <= n; i++) { Element* e = mp[i]; if (!e) break; idx.push_back(e->id); }
                    if (mp[-1]) own = false;
                    for (int i = 0; i < n; i++)
                        if (alive(i))
                        {
                            bool in = false;
                            for (int q : fwd) in |= q == i;
                            if (mp.Member(el[(size_t)i]) != in || (el[(size_t)i]->GetOwningMap() == &mp) != in) own = false;
                            if (in && mp.FindMapElement(el[(size_t)i]->key) != el[(size_t)i]) own = false;
                        }
                    // iterators are equal exactly when they are at the same element, an element outside every map has no neighbours
                    {
                        size_t p = 0;
                        for (TS::MapIterator<Element> it = mp.begin(); p <= fwd.size(); p++)
                        {
                            size_t q = 0;
                            for (TS::MapIterator<Element> at = mp.begin(); q <= fwd.size(); q++)
                            {
                                if ((it == at) != (p == q) || (it != at) != (p != q)) own = false;
                                if (q < fwd.size()) { TS::MapIterator<Element>& n = ++at; if (&n != &at) own = false; }
                                if (fwd.size() > 12 && q > p) break;
                            }
                            if ((it == mp.end()) != (p == fwd.size()) || (*it ? (*it)->id : -1) != (p < fwd.size() ? fwd[p] : -1)) own = false;
                            if (p < fwd.size()) ++it;
                            if (fwd.size() > 12 && p >= 3) break;
                        }
                        for (int i = 0; i < n; i++)
                            if (alive(i) && !el[(size_t)i]->GetOwningMap() && (el[(size_t)i]->GetNextMapElement() || el[(size_t)i]->GetPreviousMapElement() || el[(size_t)i]->GetLeftSubnode() || el[(size_t)i]->GetRightSubnode())) own = false;
                    }
                    if ((fwd.empty() ? nullptr : el[(size_t)fwd[0]]) != mp.GetFirstMapElement()) own = false;
                    out += std::string(k > 1 ? "," : "") + "{\"tree\":" + t + ",\"fwd\":" + list(fwd) + ",\"bwd\":" + list(bwd) + ",\"idx\":" + list(idx) + ",\"count\":" + std::to_string(mp.GetMapElementCount()) +
                           ",\"empty\":" + (mp.Empty() ? "true" : "false") + ",\"own\":" + (own ? "true" : "false") + "}";
                }
            out += "]}";
        }
        out += "]";
        // what is left in a map is destroyed with it, the rest by its owner
        std::vector<int> in((size_t)n, 0);
        for (int i = 0; i < n; i++) in[(size_t)i] = alive(i) && (maps[1]->Member(el[(size_t)i]) || maps[2]->Member(el[(size_t)i]));
        maps[1].reset();
        maps[2].reset();
        bool ok = true;
        for (int i = 0; i < n; i++)
        {
            if (in[(size_t)i] && destroyed[(size_t)i] != base[(size_t)i] + 1) ok = false;
            if (!in[(size_t)i] && alive(i)) delete el[(size_t)i];
        }
        return std::string(ok ? "ok " : "leaked ") + out;
    });
}
