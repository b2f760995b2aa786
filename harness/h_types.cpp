// Drives the registry and the new-type handlers of a transceiver, and the plain
// DescriptorMap, in step with specs/Types.tla.
#include "common.h"
#include <set>
#include <boost/asio.hpp>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots/type/DescriptorMap.h>
#include <dots/io/DescriptorConverter.h>
#include <StructDescriptorData.dots.h>
#include <EnumDescriptorData.dots.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
namespace dt = dots::type;

// what the universe is made of; built once per process from what a peer would send
struct Universe
{
    dt::Registry scratch{ std::nullopt, dt::Registry::StaticTypePolicy::FundamentalOnly };
    std::map<std::string, std::shared_ptr<Desc>> types;
    std::map<std::string, std::string> alias; // real name -> model name

    Universe()
    {
        dots::io::DescriptorConverter c{ scratch };
        EnumDescriptorData e{ .name = "CE" };
        auto& el = e.elements.emplace();
        el.push_back(EnumElementDescriptor{ .enum_value = 1, .name = "one", .tag = 1 });
        el.push_back(EnumElementDescriptor{ .enum_value = 5, .name = "two", .tag = 2 });
        c(e);
        auto st = [&](const char* name, std::vector<std::pair<std::string, std::string>> props)
        {
            StructDescriptorData d{ .name = name };
            auto& ps = d.properties.emplace();
            int tag = 0;
            for (auto& [n, t] : props) { ++tag; ps.push_back(StructPropertyData{ .name = n, .tag = tag, .isKey = tag == 1, .type = t }); }
            d.flags.emplace(DotsStructFlags{ .cached = true, .internal = false, .persistent = false, .cleanup = false, .local = false, .substructOnly = false });
            c(d);
        };
        st("BS", { { "k", "int32" }, { "a", "CE" } });
        st("AT", { { "k", "string" }, { "b", "BS" }, { "v", "vector<CE>" } });
        for (auto& [real, name] : std::map<std::string, std::string>{ { "AT", "AT" }, { "BS", "BS" }, { "CE", "CE" }, { "vector<CE>", "VC" } })
        {
            types[name] = scratch.getType(real).shared_from_this();
            alias[real] = name;
        }
    }
};

struct World
{
    Universe& u;
    boost::asio::io_context io;
    std::unique_ptr<dots::Transceiver> t;
    std::map<std::string, dots::Subscription> subs;
    dt::DescriptorMap map;
    std::vector<std::string> log;
    std::map<std::string, std::map<std::string, int>> others; // slot -> other type -> count, of one operation
    std::string complaint = "ok";
    size_t otherTypes = 0;

    World(Universe& u_, const J& c) : u(u_)
    {
        std::string kind = c["transceiver"].GetString(), policy = c["policy"].GetString();
        using P = dt::Registry::StaticTypePolicy;
        P p = policy == "all" ? P::All : policy == "internal" ? P::InternalOnly : P::FundamentalOnly;
        if (kind == "host") t = std::make_unique<dots::HostTransceiver>("t", io, p);
        else t = std::make_unique<dots::GuestTransceiver>("t", io, p);
        otherTypes = t->registry().size();
        // what the policy promises
        std::set<std::string> seen;
        for (const auto& [name, d] : t->registry())
        {
            if (!seen.insert(d->name()).second || name != d->name()) complaint = "registry keys";
            bool userStruct = d->as<dt::StructDescriptor>() != nullptr && !d->as<dt::StructDescriptor>()->internal();
            if (userStruct && p != P::All) complaint = "user type in registry";
            if (p == P::FundamentalOnly && (d->type() == Type::Struct || d->type() == Type::Enum)) complaint = "not fundamental";
        }
        for (const char* n : { "bool", "int8", "uint64", "float32", "string", "uuid", "timepoint", "duration", "property_set", "vector<int32>", "vector<string>" })
            if (!seen.count(n)) complaint = std::string("no ") + n;
        if (seen.count("DotsHeader") != (p != P::FundamentalOnly)) complaint = "internal types";
        if (seen.count("VtIntC") != (p == P::All)) complaint = "user types";
    }

    template <typename D>
    dots::Transceiver::new_type_handler_t<D> handler(std::string s, std::string on, std::string act, std::string arg)
    {
        auto own = std::make_shared<std::string>(s);
        return [this, s, on, act, arg, own](const D& d_)
        {
            const Desc& d = d_;
            std::string slot = s; // the closure might go away
            if (auto it = u.alias.find(d.name()); it == u.alias.end())
            {
                ++others[slot][d.name()];
                if (t->registry().findType(d.name()) != &d) complaint = "told of unknown " + d.name();
                return;
            }
            else
            {
                if (u.types.at(it->second).get() != &d) complaint = "other descriptor";
                if (t->registry().findType(d.name()) != &d) complaint = "told of unknown " + d.name();
                log.push_back("[" + quote(slot) + "," + quote(it->second) + "]");
                if (it->second == on)
                {
                    if (act == "throw")
                    {
                        if (slot == "h2") throw 42;
                        throw std::runtime_error("handler");
                    }
                    else if (act == "unsub") subs.erase(arg);
                    else if (act == "sub") { if (!busy.count(arg) && !subs.count(arg)) subscribe(arg, "all", "-", "nop", "-"); }
                    else if (act == "reg") t->registry().registerType(*u.types.at(arg), false);
                }
            }
            if (*own != slot) abort();
        };
    }

    std::set<std::string> busy;
    void subscribe(const std::string& s, const std::string& kind, const std::string& on, const std::string& act, const std::string& arg)
    {
        others.erase(s);
        busy.insert(s);
        struct Leave { std::set<std::string>& b; std::string s; ~Leave() { b.erase(s); } } leave{ busy, s };
        auto sub = kind == "struct" ? t->subscribe(handler<dt::StructDescriptor>(s, on, act, arg))
                 : kind == "enum" ? t->subscribe(handler<dt::EnumDescriptor>(s, on, act, arg))
                 : t->subscribe(handler<Desc>(s, on, act, arg));
        subs.emplace(s, std::move(sub));
        // every type outside of the universe exactly once
        size_t want = 0;
        t->registry().forEach([&](const Desc& d)
        {
            if (u.alias.count(d.name())) return;
            if (kind == "all" || (kind == "struct" && d.type() == Type::Struct) || (kind == "enum" && d.type() == Type::Enum))
            {
                ++want;
                if (others[s][d.name()] != 1) complaint = d.name() + " announced " + std::to_string(others[s][d.name()]) + " times";
            }
        });
        if (others[s].size() != want) complaint = "too many types announced";
        others.erase(s);
    }

    std::string obs(bool ok)
    {
        for (auto& [s, m] : others) for (auto& [n, c] : m) if (c > 1) complaint = n + " announced again";
        others.clear();
        auto& r = t->registry();
        Obj known;
        size_t found = 0;
        std::set<std::string> structs, enums;
        r.forEach<dt::StructDescriptor>([&](const dt::StructDescriptor& d) { structs.insert(d.name()); });
        r.forEach<dt::EnumDescriptor>([&](const dt::EnumDescriptor& d) { enums.insert(d.name()); });
        for (auto& [name, d] : u.types)
        {
            const std::string& n = d->name();
            const Desc* f = std::as_const(r).findType(n);
            const auto* fs = std::as_const(r).findStructType(n);
            const auto* fe = std::as_const(r).findEnumType(n);
            std::string kind = f == nullptr ? "none" : f->type() == Type::Struct ? "struct" : f->type() == Type::Enum ? "enum" : f->type() == Type::Vector ? "vector" : "other";
            if (f != nullptr && f != d.get()) kind = "other descriptor";
            if ((fs != nullptr) != (kind == "struct") || (fe != nullptr) != (kind == "enum") || r.hasType(n) != (f != nullptr)) kind += "?";
            if (structs.count(n) != (kind == "struct") || enums.count(n) != (kind == "enum")) kind += "!";
            auto throws = [&](auto fn) { try { fn(); return false; } catch (const std::logic_error&) { return true; } };
            if (throws([&] { r.getType(n); }) != (kind == "none") || throws([&] { r.getStructType(n); }) != (kind != "struct") || throws([&] { r.getEnumType(n); }) != (kind != "enum")) kind += "$";
            found += f != nullptr;
            known.str(name, kind);
        }
        if (r.size() != otherTypes + found) complaint = "size";
        std::vector<std::string> ss;
        for (auto& [s, x] : subs) ss.push_back(quote(s));
        Obj o;
        o.boolean("ok", ok).raw("log", arr(log)).raw("known", known.done()).str("others", complaint).raw("subsS", arr(ss));
        return o.done();
    }

    std::string plain(const std::string& op, const J& c)
    {
        bool ok = true, res = true;
        try
        {
            Desc* d = c.HasMember("t") ? u.types.at(c["t"].GetString()).get() : nullptr;
            if (op == "mEmplace") { res = false; res = &map.emplace(*d) == d; }
            else if (op == "mTryEmplace") { auto [x, e] = map.tryEmplace(*d); if (x != d) ok = false; res = e; }
            else if (op == "mErase") { if (c["t"].GetString()[0] % 2) map.erase(*d, c["assert"].GetBool()); else map.erase(d->name(), c["assert"].GetBool()); }
            else if (op == "mContains") res = map.contains(d->name());
            else if (op == "mFind") { res = false; const Desc* x = std::as_const(map).find(d->name(), c["assert"].GetBool()); res = x != nullptr; if (x && x != d) ok = false; }
            else if (op == "mGet") { res = false; res = &map.get(d->name()) == d; }
            else if (op == "mClear") map.clear();
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::logic_error&) { ok = false; }
        std::vector<std::string> names;
        for (auto& [n, d] : map) names.push_back(quote(n == d->name() ? u.alias.at(std::string(n)) : "?"));
        // an error in mErase leaves res as it was
        return Obj().boolean("ok", ok).boolean("res", res).raw("map", arr(names)).num("size", (long long)map.size()).done();
    }
};

int main()
{
    vt_touch();
    Universe u;
    std::unique_ptr<World> w;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(u, c); return "{}"; }
        if (op[0] == 'm') return w->plain(op, c);
        w->log.clear();
        bool ok = true;
        try
        {
            if (op == "Subscribe") w->subscribe(c["s"].GetString(), c["kind"].GetString(), c["on"].GetString(), c["do"].GetString(), c["arg"].GetString());
            else if (op == "Unsubscribe") w->subs.erase(c["s"].GetString());
            else if (op == "Register") w->t->registry().registerType(*u.types.at(c["t"].GetString()), c["new"].GetBool());
            else if (op == "Deregister")
            {
                Desc& d = *u.types.at(c["t"].GetString());
                if (c["t"].GetString()[0] % 2) w->t->registry().deregisterType(d, c["assert"].GetBool());
                else w->t->registry().deregisterType(d.name(), c["assert"].GetBool());
            }
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::logic_error&) { ok = false; }
        catch (const std::runtime_error& e) { if (std::string(e.what()) != "handler") throw; ok = false; }
        catch (int) { ok = false; }
        return w->obs(ok);
    });
}
