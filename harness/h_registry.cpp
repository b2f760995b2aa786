// Drives dots::type::Registry in step with specs/Registry.tla.
#include "common.h"
#include <dots_all.h>
#include <vt_all.h>
#include <optional>
using namespace vt;
using dots::type::Registry;
using dots::type::Descriptor;

struct World
{
    std::shared_ptr<Desc> dynSub, dynTone;
    std::unique_ptr<Registry> r;
    std::vector<std::string> seen;
    std::string hook, policy;
    bool handled;
    size_t start = 0;
    bool only;
    // names of the specification and of the library
    std::string real(const std::string& n) const { return !only ? n : n == "VtNest" ? "VtNestOnly" : n == "VtSub" ? "VtOnlySub" : n == "vector<VtSub>" ? "vector<VtOnlySub>" : n; }
    std::string spec(const std::string& n) const { return !only ? n : n == "VtNestOnly" ? "VtNest" : n == "VtOnlySub" ? "VtSub" : n == "vector<VtOnlySub>" ? "vector<VtSub>" : n == "VtNest" || n == "VtSub" || n == "vector<VtSub>" ? "other" : n; }
    const std::vector<std::string> names{ "VtNest", "VtSub", "VtTone", "vector<VtNest>", "vector<VtSub>", "vector<VtTone>" };
    bool ours(const std::string& n) const { return n != "vector<VtNest>" && std::find(names.begin(), names.end(), n) != names.end(); }

    Desc& thing(const std::string& n, const std::string& i)
    {
        if (only)
        {
            // the same with a type that is only used within others
            if (n == "VtNest") return Descriptor<VtNestOnly>::Instance();
            if (n == "VtSub" && i == "s") return Descriptor<VtOnlySub>::Instance();
            if (n == "vector<VtSub>") return Descriptor<dots::vector_t<VtOnlySub>>::Instance();
        }
        if (i == "d") return n == "VtSub" ? *dynSub : *dynTone;
        if (n == "VtNest") return Descriptor<VtNest>::Instance();
        if (n == "VtSub") return Descriptor<VtSub>::Instance();
        if (n == "VtTone") return Descriptor<VtTone>::Instance();
        if (n == "vector<VtSub>") return Descriptor<dots::vector_t<VtSub>>::Instance();
        return Descriptor<dots::vector_t<VtTone>>::Instance();
    }
    std::string instance(const Desc* d)
    {
        if (d == nullptr) return "-";
        if (d == dynSub.get() || d == dynTone.get()) return "d";
        return d == &thing(spec(d->name()), "s") ? "s" : "?";
    }
    World(const J& c) : hook{ c["hook"].GetString() }, policy{ c["policy"].GetString() }, handled{ c["handled"].GetBool() }, only{ c.HasMember("only") && c["only"].GetBool() }
    {
        for (auto& n : names) if (ours(n)) (void)thing(n, "s");
        (void)Descriptor<VtAll>::Instance();
        (void)Descriptor<DotsMsgHello>::Instance();
        auto& sub = static_cast<const dots::type::StructDescriptor&>(thing("VtSub", "s"));
        dynSub = dots::type::make_descriptor<Descriptor<dots::type::DynamicStruct>>(sub.name(), sub.flags(), sub.propertyDescriptors(), sizeof(dots::type::DynamicStruct) + sub.size() - sub.areaOffset());
        std::vector<dots::type::EnumeratorDescriptor> es;
        es.emplace_back(1, "low", static_cast<dots::type::DynamicEnum>(1));
        dynTone = dots::type::make_descriptor<Descriptor<dots::type::DynamicEnum>>("VtTone", std::move(es));
        reset();
    }
    void reset()
    {
        seen.clear();
        std::optional<Registry::new_type_handler_t> h;
        if (handled) h.emplace([this](const Desc& d)
        {
            // the types of the registry itself are not what this is about
            std::string n = spec(d.name());
            if (!ours(n)) return;
            seen.push_back(quote(n));
            if (r->findType(d.name()) != &d) seen.push_back("\"not held\"");
            if (n == "VtSub" && hook == "tone") r->registerType(thing("VtTone", "s"), false);
            if (n == "VtSub" && hook == "nest") r->registerType(thing("VtNest", "s"), false);
        });
        r = std::make_unique<Registry>(std::move(h), policy == "all" ? Registry::StaticTypePolicy::All : policy == "internal" ? Registry::StaticTypePolicy::InternalOnly : Registry::StaticTypePolicy::FundamentalOnly);
        start = r->size();
    }
    const Desc* find(const std::string& n, const std::string& kind, const std::string& how)
    {
        const Registry& c = *r;
        if (kind == "any") return how == "get" ? &r->getType(n) : how == "must" ? c.findType(n, true) : r->findType(n);
        if (kind == "struct") return how == "get" ? &c.getStructType(n) : how == "must" ? r->findStructType(n, true) : c.findStructType(n);
        return how == "get" ? &r->getEnumType(n) : how == "must" ? c.findEnumType(n, true) : r->findEnumType(n);
    }
    bool known()
    {
        for (auto n : { "bool", "int8", "uint64", "float32", "string", "uuid", "timepoint", "duration", "property_set", "vector<bool>", "vector<string>", "vector<int32>" })
            if (!r->hasType(n)) throw std::runtime_error{ std::string{ "no " } + n };
        if (r->hasType("VtAll") != (policy == "all")) throw std::runtime_error{ "VtAll" };
        if (r->hasType("DotsMsgHello") != (policy != "fundamental")) throw std::runtime_error{ "DotsMsgHello" };
        if (r->hasType("vector<VtAll>")) throw std::runtime_error{ "vector<VtAll>" };
        return policy != "fundamental";
    }
    std::string step(const std::string& op, const J& c)
    {
        seen.clear();
        std::string got = "-", err;
        bool exc = false;
        auto text = [&](const char* k) { return std::string{ c[k].GetString() }; };
        try
        {
            if (op == "Register")
            {
                Desc& d = thing(text("n"), text("i"));
                got = instance(&(c["new"].GetBool() ? seen.empty() && text("i") == "s" ? r->registerType(d) : r->registerType(d.shared_from_this(), true) : r->registerType(d, false)));
            }
            else if (op == "Deregister")
            {
                if (text("how") == "name") r->deregisterType(real(text("n")), c["must"].GetBool());
                else r->deregisterType(thing(text("n"), "s"), c["must"].GetBool());
            }
            else if (op == "Find") got = instance(find(real(text("n")), text("kind"), text("how")));
            else if (op == "Has") got = r->hasType(real(text("n"))) ? "yes" : "no";
            else if (op == "Known") got = known() ? "yes" : "no";
            else return Obj().str("exception", "harness: " + op).done();
        }
        catch (const std::logic_error&) { exc = true; }
        std::vector<std::string> list, structs, enums, both;
        auto to = [this](std::vector<std::string>& l) { return [this, &l](const Desc& d) { if (auto n = spec(d.name()); ours(n)) l.push_back(quote(n)); }; };
        r->forEach(to(list));
        r->forEach<dots::type::StructDescriptor>(to(structs));
        r->forEach<dots::type::EnumDescriptor>(to(enums));
        r->forEach(to(both), [](const Desc& d) { return d.type() == Type::Enum || d.type() == Type::Struct; });
        std::vector<std::string> again;
        for (auto& [m, d] : *r) if (auto n = spec(std::string{ m }); ours(n)) again.push_back(quote(n));
        if (again != list) list.push_back("\"?\"");
        Obj held;
        for (auto& n : names) if (ours(n)) held.raw(n, quote(instance(std::as_const(*r).findType(real(n)))));
        return Obj().raw("held", held.done()).raw("list", arr(list)).raw("structs", arr(structs)).raw("enums", arr(enums)).raw("both", arr(both)).num("more", (long long)r->size() - (long long)start)
            .raw("seen", arr(seen)).boolean("exc", exc).str("got", got).done();
    }
};

int main()
{
    std::unique_ptr<World> w;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { if (w) w->reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(c); return "{}"; }
        return w->step(op, c);
    });
}
