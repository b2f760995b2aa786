// Drives dots::ContainerPool in step with specs/Pool.tla.
#include "common.h"
#include <dots/ContainerPool.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
namespace dt = dots::type;

struct World
{
    dots::ContainerPool pool;
    std::vector<dots::ContainerPool::node_t> nodes; // the last one is held
    std::map<std::string, const dots::Container<>*> where; // references stay valid
    std::vector<std::string> types;

    World(const J& c) { for (auto& t : c["types"].GetArray()) types.push_back(t.GetString()); }

    static const dt::StructDescriptor& desc(const std::string& t) 
    {
        if (t == "C") return VtIntC::_Descriptor();
        if (t == "S") return VtStrC::_Descriptor();
        return VtOne::_Descriptor();
    }
    static std::string nameOf(const dt::StructDescriptor& d) { return d.name() == "VtIntC" ? "C" : d.name() == "VtStrC" ? "S" : "One"; }
    static dt::AnyStruct inst(const std::string& t, int k, int n)
    {
        std::string big(40 + n % 7, 'x'); // does not fit into the string object
        if (t == "C") return VtIntC{ .k = k, .p = n };
        if (t == "S") return VtStrC{ .k = std::to_string(k), .p = big };
        return VtOne{ .p = n, .q = big };
    }
    static int keyOf(const dt::Struct& s)
    {
        if (auto* c = s._as<VtIntC>()) return *c->k;
        if (auto* c = s._as<VtStrC>()) return atoi(c->k->c_str());
        return 1;
    }

    static std::string view(const dots::Container<>* c)
    {
        if (c == nullptr) return "{\"has\":false,\"keys\":[]}";
        std::vector<std::string> ks, again, clones;
        for (const auto& [i, ci] : *c) ks.push_back(std::to_string(keyOf(*i)));
        c->forEach([&](const dt::Struct& s) { again.push_back(std::to_string(keyOf(s))); });
        c->forEachClone([&](const auto& v) { clones.push_back(std::to_string(keyOf(*v.first))); if (c->find(*v.first) != &*v.first || c->findClone(*v.first) != &v) ks.push_back("\"not found\""); });
        if (again != ks || clones != ks || c->size() != ks.size() || c->empty() != ks.empty()) ks.push_back("\"differs\"");
        return Obj().boolean("has", true).raw("keys", arr(ks)).done();
    }

    int n = 0;
    std::string step(const std::string& op, const J& c)
    {
        std::string t = c["t"].GetString();
        const auto& d = desc(t);
        bool ok = true, same = true;
        auto had = pool.find(d);
        try
        {
            if (op == "Get")
            {
                bool insert = c["insert"].GetBool();
                auto& x = ++n % 2 ? pool.get(d, insert) : const_cast<dots::Container<>&>(std::as_const(pool).get(d, insert));
                same = &x.descriptor() == &d && (had == nullptr || had == &x);
            }
            else if (op == "GetName") { auto& x = ++n % 2 ? pool.get(d.name()) : const_cast<dots::Container<>&>(std::as_const(pool).get(d.name())); same = &x == had; }
            else if (op == "Insert")
            {
                auto i = inst(t, c["k"].GetInt(), ++n);
                DotsHeader h{ .typeName = d.name(), .sentTime = dots::timepoint_t::Now(), .attributes = i->_validProperties(), .sender = 1 };
                pool.get(d).insert(h, i);
            }
            else if (op == "Erase")
            {
                auto i = inst(t, c["k"].GetInt(), ++n);
                DotsHeader h{ .typeName = d.name(), .sentTime = dots::timepoint_t::Now(), .attributes = i->_keyProperties(), .sender = 1, .removeObj = true };
                ok = !pool.get(d).remove(h, i).empty();
            }
            else if (op == "Clear") pool.get(d.name()).clear();
            else if (op == "Remove") { nodes.push_back(pool.remove(d)); if (nodes.size() > 3) nodes.erase(nodes.begin()); }
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::runtime_error& e)
        {
            if (std::string(e.what()).rfind("container pool does not contain", 0) != 0) throw;
            ok = false;
        }
        // references to containers stay valid
        Obj bd, bn, each;
        std::map<std::string, std::string> eachOf;
        pool.forEach([&](const dots::Container<>& x) { eachOf[nameOf(x.descriptor())] += view(&x); });
        size_t iterated = 0, mem = 0;
        for (auto& [k, x] : pool) { ++iterated; if (&x.descriptor() != k) same = false; mem += x.totalMemoryUsage(); }
        for (auto& tt : types)
        {
            const auto& dd = desc(tt);
            const auto *a = pool.find(dd), *b = std::as_const(pool).find(dd.name());
            if (a != b) same = false;
            if (tt != t || op != "Remove") { if (where.count(tt) && where[tt] != nullptr && where[tt] != a) same = false; }
            where[tt] = a;
            bd.raw(tt, view(a));
            bn.raw(tt, view(b));
            each.raw(tt, eachOf.count(tt) ? eachOf[tt] : view(nullptr));
        }
        std::string memory_ = "sum";
        if (mem != pool.totalMemoryUsage()) memory_ = "not the sum of the containers";
        if (iterated != pool.size() || pool.empty() != (pool.size() == 0)) same = false;
        Obj held;
        if (nodes.empty()) held.str("t", "-").raw("keys", "[]");
        else
        {
            auto& x = nodes.back().mapped();
            std::vector<std::string> ks;
            for (const auto& [i, ci] : x) ks.push_back(std::to_string(keyOf(*i)));
            held.str("t", nameOf(*nodes.back().key())).raw("keys", arr(ks));
        }
        return Obj().boolean("ok", ok).num("sizeN", (long long)pool.size()).raw("byDescriptor", bd.done()).raw("byName", bn.done()).raw("each", each.done())
            .raw("held", held.done()).str("memory", memory_).boolean("same", same).done();
    }
};

int main()
{
    vt_touch();
    VtOne::_Descriptor();
    std::unique_ptr<World> w;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(c); return "{}"; }
        return w->step(op, c);
    });
}
