// Descriptions of types on the channels of a transceiver (specs/Describe.tla).
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <dots/io/DescriptorConverter.h>
#include <dots/serialization/CborSerializer.h>
#include <dots_all.h>
#include <vt_all.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using namespace vt;
using dots::serialization::CborSerializer;
using dots::type::Registry;

static std::string strip(std::string t)
{
    return t.rfind("vector<", 0) == 0 ? t.substr(7, t.size() - 8) : t;
}

// a definition as it is written in the specification, from a descriptor ...
static std::string defJson(const Desc& d)
{
    Obj o;
    std::vector<std::string> flags, props;
    o.str("name", d.name());
    if (auto* e = d.as<dots::type::EnumDescriptor>())
    {
        o.str("kind", "enum");
        for (const auto& x : e->enumerators()) props.push_back("[" + quote(x.name()) + "," + std::to_string(x.tag()) + "," + std::to_string(x.value()) + "]");
    }
    else
    {
        const auto& s = static_cast<const dots::type::StructDescriptor&>(d);
        o.str("kind", "struct");
        if (s.cached()) flags.push_back("cached");
        if (s.internal()) flags.push_back("internal");
        if (s.persistent()) flags.push_back("persistent");
        if (s.cleanup()) flags.push_back("cleanup");
        if (s.local()) flags.push_back("local");
        if (s.substructOnly()) flags.push_back("substruct_only");
        dots::property_set_t keys, all;
        for (const auto& x : s.propertyDescriptors())
        {
            props.push_back("[" + quote(x.name()) + "," + std::to_string(x.tag()) + "," + (x.isKey() ? "true" : "false") + "," + quote(x.valueDescriptor().name()) + "]");
            dots::property_set_t p = dots::property_set_t::FromIndex(x.tag());
            if (x.set() != p) o.boolean("badset", true);
            all += p;
            if (x.isKey()) keys += p;
        }
        if (s.properties() != all || s.keyProperties() != keys) o.boolean("badsets", true);
    }
    return o.raw("flagsS", strs(flags)).raw("props", arr(props)).done();
}

// ... and from a description
static std::string defJson(const EnumDescriptorData& d)
{
    std::vector<std::string> props;
    if (d.elements.isValid())
        for (const auto& x : *d.elements) props.push_back("[" + quote(*x.name) + "," + std::to_string(*x.tag) + "," + std::to_string(*x.enum_value) + "]");
    return Obj{}.str("name", *d.name).str("kind", "enum").raw("flagsS", "[]").raw("props", arr(props)).done();
}
static std::string defJson(const StructDescriptorData& d)
{
    std::vector<std::string> flags, props;
    if (d.flags.isValid())
    {
        if (d.flags->cached == true) flags.push_back("cached");
        if (d.flags->internal == true) flags.push_back("internal");
        if (d.flags->persistent == true) flags.push_back("persistent");
        if (d.flags->cleanup == true) flags.push_back("cleanup");
        if (d.flags->local == true) flags.push_back("local");
        if (d.flags->substructOnly == true) flags.push_back("substruct_only");
    }
    if (d.properties.isValid())
        for (const auto& x : *d.properties)
            props.push_back("[" + quote(*x.name) + "," + std::to_string(*x.tag) + "," + (*x.isKey ? "true" : "false") + "," + quote(*x.type) + "]");
    return Obj{}.str("name", *d.name).str("kind", "struct").raw("flagsS", strs(flags)).raw("props", arr(props)).done();
}

static dots::type::AnyStruct description(const J& def)
{
    auto str = [](const J& j) { return std::string(j.GetString()); };
    if (str(def["kind"]) == "enum")
    {
        EnumDescriptorData d{ .name = str(def["name"]) };
        auto& es = d.elements.emplace();
        for (const auto& x : def["props"].GetArray()) es.push_back(EnumElementDescriptor{ .enum_value = x[2].GetInt(), .name = str(x[0]), .tag = x[1].GetUint() });
        return d;
    }
    auto has = [&](const char* f) { for (const auto& x : def["flagsS"].GetArray()) if (str(x) == f) return true; return false; };
    StructDescriptorData d{ .name = str(def["name"]) };
    auto& ps = d.properties.emplace();
    if (def["props"].IsArray())
        for (const auto& x : def["props"].GetArray())
            ps.push_back(StructPropertyData{ .name = str(x[0]), .tag = x[1].GetUint(), .isKey = x[2].GetBool(), .type = str(x[3]) });
    d.flags = DotsStructFlags{ .cached = has("cached"), .internal = has("internal"), .persistent = has("persistent"), .cleanup = has("cleanup"), .local = has("local"), .substructOnly = has("substruct_only") };
    return d;
}

// what only looks like a description
static dots::type::AnyStruct badDescription(const std::string& what)
{
    if (what.rfind("enum", 0) == 0)
    {
        EnumDescriptorData d{ .name = "VtBad" };
        auto& es = d.elements.emplace();
        es.push_back(EnumElementDescriptor{ .enum_value = 1, .name = "one", .tag = 1u });
        es.push_back(EnumElementDescriptor{ .enum_value = 2, .name = "two", .tag = 2u });
        if (what == "enumname") es[1].name = dots::invalid;
        if (what == "enumtag") es[1].tag = dots::invalid;
        if (what == "enumvalue") es[1].enum_value = dots::invalid;
        if (what == "enumelems") d.elements = dots::invalid;
        return d;
    }
    StructDescriptorData d{ .name = "VtBad", .flags = DotsStructFlags{ .cached = true } };
    auto& ps = d.properties.emplace();
    ps.push_back(StructPropertyData{ .name = "k", .tag = 1u, .isKey = true, .type = "int32" });
    ps.push_back(StructPropertyData{ .name = "x", .tag = 2u, .isKey = false, .type = "string" });
    auto& x = ps[1];
    if (what == "tag32") x.tag = 32u;
    if (what == "tag33") x.tag = 33u;
    if (what == "tagbig") x.tag = 4294967295u;
    if (what == "twice") ps.push_back(StructPropertyData{ .name = "y", .tag = 2u, .isKey = false, .type = "int32" });
    if (what == "twicekey") x.tag = 1u;
    if (what == "noname") d.name = dots::invalid;
    if (what == "noprop") x.name = dots::invalid;
    if (what == "notype") x.type = dots::invalid;
    if (what == "notag") x.tag = dots::invalid;
    if (what == "nokey") x.isKey = dots::invalid;
    if (what == "noprops") d.properties = dots::invalid;
    if (what == "novector") x.type = "vector<VtNope>";
    if (what == "itself") x.type = "VtBad";
    return d;
}

// every property gets a value that depends on its place
static void fill(const Desc& d, Typeless& v, int n);
static void fillInst(dots::type::Struct& s, int n)
{
    for (const auto& pd : s._descriptor().propertyDescriptors())
    {
        dots::type::ProxyProperty<> p{ s, pd };
        p.emplace();
        fill(pd.valueDescriptor(), p.storage(), n * 7 + int(pd.tag()));
    }
}
static void fill(const Desc& d, Typeless& v, int n)
{
    rapidjson::Document j;
    switch (d.type())
    {
        case Type::boolean: j.SetBool(true); break;
        case Type::string: j.SetString(("text number " + std::to_string(n) + ", long enough").c_str(), j.GetAllocator()); break;
        case Type::uuid: { char b[40]; snprintf(b, sizeof b, "%032x", n); j.SetString(b, j.GetAllocator()); break; }
        case Type::Enum:
        {
            const auto& es = static_cast<const dots::type::EnumDescriptor&>(d).enumerators();
            v.to<int32_t>() = es[n % es.size()].value();
            return;
        }
        case Type::Struct: fillInst(v.to<dots::type::Struct>(), n); return;
        case Type::Vector:
        {
            const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
            auto& vec = v.to<dots::type::Vector<>>();
            vd.fill(vec, 2);
            for (size_t i = 0; i < 2; ++i)
                if (vd.valueDescriptor().type() == Type::boolean) {} else fill(vd.valueDescriptor(), vec.typelessAt(i), n + int(i));
            return;
        }
        default: j.SetInt(n % 100); break;
    }
    setValue(d, v, j);
}

struct Peer
{
    std::shared_ptr<ScriptChannel> channel; // host side: what the host was given
    std::weak_ptr<ScriptChannel> weak;
    std::vector<Sent> log;
};

struct World
{
    boost::asio::io_context io;
    bool isHost;
    std::set<std::string> universe;
    std::map<std::string, Peer> peers;
    Registry refTypes{ std::nullopt, Registry::StaticTypePolicy::FundamentalOnly }; // types of the peers
    std::vector<std::string> seen;
    std::unique_ptr<dots::HostTransceiver> host;
    std::unique_ptr<dots::GuestTransceiver> guest;
    ScriptListener* listener = nullptr;
    std::vector<dots::Subscription> subs;

    dots::Transceiver& hub() { return isHost ? static_cast<dots::Transceiver&>(*host) : *guest; }

    World(const J& c) : isHost(std::string(c["role"].GetString()) == "host")
    {
        for (auto& t : c["universe"].GetArray()) universe.insert(t.GetString());
        if (isHost)
        {
            host = std::make_unique<dots::HostTransceiver>("srv", io, Registry::StaticTypePolicy::InternalOnly);
            auto l = std::make_unique<ScriptListener>();
            listener = l.get();
            host->listen(std::move(l));
            for (auto n : { "DotsEcho", "DotsDescriptorRequest", "DotsMember" })
                subs.push_back(host->subscribe(allTypes().getStructType(n), dots::Transceiver::transmission_handler_t{ [this, n](const dots::io::Transmission&) { seen.push_back(n); } }));
        }
        else guest = std::make_unique<dots::GuestTransceiver>("me", io, Registry::StaticTypePolicy::InternalOnly);
        for (auto& x : c["early"].GetArray()) early.insert(x.GetString());
        for (auto& t : c["statics"].GetArray()) use(t.GetString());
        for (auto& p : c["peers"].GetArray()) join(p.GetString());
        clear();
    }
    ~World()
    {
        for (auto& [n, p] : peers)
        {
            if (auto c = p.weak.lock()) { c->onSent = nullptr; c->broken = true; c->sent.clear(); }
            p.channel.reset();
            p.log.clear(); // its types are the hub's
        }
        subs.clear();
        host.reset();
        guest.reset();
    }

    std::set<std::string> early;

    void use(const std::string& t) { hub().registry().registerType(allTypes().getType(t), false); }

    void join(const std::string& n)
    {
        Peer& p = peers[n];
        auto c = dots::io::make_channel<ScriptChannel>("tcp://10.0.0.1:1000");
        p.weak = c;
        p.log.clear();
        c->onSent = [this, n](const Sent& s) { peers[n].log.push_back(s); };
        if (isHost)
        {
            p.channel = c;
            listener->accept(c);
            inject(n, DotsMsgConnect{ .clientName = n, .preloadCache = early.count(n) != 0 });
        }
        else
        {
            guest->open({}, {}, std::nullopt, c);
            c.reset();
            inject(n, DotsMsgHello{ .serverName = "srv", .authChallenge = 0 });
            inject(n, DotsMsgConnectResponse{ .clientId = 7, .accepted = true, .preload = false });
        }
    }

    void inject(const std::string& n, const dots::type::Struct& s)
    {
        DotsHeader h{ .typeName = s._descriptor().name() };
        h.attributes = s._validProperties();
        h.sentTime = dots::timepoint_t::Now();
        if (!isHost) h.serverSentTime = dots::timepoint_t::Now();
        if (!isHost) h.sender = 9;
        auto c = peers[n].weak.lock();
        if (!c) throw std::runtime_error("harness: no channel");
        c->inject(h, s);
    }

    void clear()
    {
        seen.clear();
        for (auto& [n, p] : peers)
        {
            p.log.clear();
            if (auto c = p.weak.lock()) c->sent.clear();
        }
        io.restart();
        io.poll();
    }

    // the type as the peers know it
    const dots::type::StructDescriptor& ref(const std::string& t)
    {
        if (auto* d = allTypes().findStructType(t)) return *d;
        return refTypes.getStructType(t);
    }
    void learnRef(const J& def)
    {
        if (refTypes.hasType(def["name"].GetString())) return;
        dots::io::DescriptorConverter c{ refTypes };
        auto d = description(def);
        if (auto* s = d->_as<StructDescriptorData>())
        {
            for (const auto& p : *s->properties) needRef(strip(*p.type));
            c(*s);
        }
        else c(*d->_as<EnumDescriptorData>());
    }
    void needRef(const std::string& t)
    {
        if (refTypes.hasType(t)) return;
        dots::io::DescriptorConverter c{ refTypes }, from{ allTypes() };
        if (auto* s = allTypes().findStructType(t))
        {
            for (const auto& p : s->propertyDescriptors()) needRef(strip(p.valueDescriptor().name()));
            c(from(*s));
        }
        else if (auto* e = allTypes().findEnumType(t)) c(from(*e));
    }

    static std::string encode(const dots::type::Struct& s, dots::property_set_t inc = dots::property_set_t::All)
    {
        CborSerializer o;
        o.serialize(s, inc);
        return { o.output().begin(), o.output().end() };
    }
    static dots::type::AnyStruct decode(const dots::type::StructDescriptor& d, const std::string& bytes)
    {
        dots::type::AnyStruct a{ d };
        CborSerializer in;
        in.setInput(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size());
        in.deserialize(*a);
        return a;
    }

    // same: the peer finds in the message what was published
    std::string value(const Sent& s)
    {
        const auto& d = s.instance->_descriptor();
        auto& r = ref(d.name());
        dots::type::AnyStruct want{ r };
        fillInst(*want, 1);
        auto got = decode(r, encode(*s.instance, *s.header.attributes ^ s.instance->_validProperties()));
        std::string a = instJson(*want), b = instJson(*got);
        return a == b && *s.header.attributes == want->_validProperties() ? "same" : b;
    }

    std::string message(const Sent& s)
    {
        Obj o;
        const auto& i = *s.instance;
        std::string t = i._descriptor().name();
        if (s.header.typeName != t) o.boolean("badname", true);
        if (auto* m = i._as<StructDescriptorData>()) return o.str("m", "desc").raw("d", defJson(*m)).done();
        if (auto* m = i._as<EnumDescriptorData>()) return o.str("m", "desc").raw("d", defJson(*m)).done();
        if (auto* m = i._as<DotsCacheInfo>())
        {
            if (m->endDescriptorRequest == true && m->_validProperties() == DotsCacheInfo::endDescriptorRequest_p) return o.str("m", "enddesc").done();
            if (m->endTransmission == true) return o.str("m", "end").str("t", *m->typeName).done();
        }
        if (i._is<DotsMsgError>()) return o.str("m", "error").done();
        if (auto* m = i._as<DotsEcho>())
            return o.str("m", "echo").boolean("same", m->identifier == 7u && m->sequenceNumber == 9u && m->data == "hello").boolean("request", !m->request.isValid() || *m->request).done();
        if (s.header.removeObj == true) return o.str("m", "rm").str("t", t).done();
        if (universe.count(t)) return o.str("m", "inst").str("t", t).str("v", value(s)).done();
        return o.str("m", t).done();
    }

    std::string peer(const std::string& n)
    {
        std::vector<std::string> desc, late, msgs, before;
        std::vector<std::pair<std::string, std::set<std::string>>> order;
        for (const auto& s : peers[n].log)
        {
            bool own = !s.header.sender.isValid();
            std::string name, def;
            std::set<std::string> deps;
            if (auto* m = s.instance->_as<StructDescriptorData>(); m && own)
            {
                name = *m->name;
                def = defJson(*m);
                for (const auto& p : *m->properties) deps.insert(strip(*p.type));
            }
            else if (auto* m = s.instance->_as<EnumDescriptorData>(); m && own) { name = *m->name; def = defJson(*m); }
            if (name.empty()) { msgs.push_back(message(s)); continue; }
            desc.push_back(def);
            if (!msgs.empty()) late.push_back(quote(name));
            for (auto& [a, x] : order)
            {
                if (deps.count(a)) before.push_back("[" + quote(a) + "," + quote(name) + "]");
                if (a == name) late.push_back(quote("twice " + name));
            }
            order.push_back({ name, deps });
        }
        return Obj{}.raw("descS", arr(desc)).raw("beforeS", arr(before)).raw("lateS", arr(late)).raw("msgs", arr(msgs)).done();
    }

    std::string observe()
    {
        Obj out, world;
        std::vector<std::string> open, types, cached;
        for (auto& [n, p] : peers)
        {
            out.raw(n, peer(n));
            auto c = p.weak.lock();
            if (c && c.use_count() > (isHost ? 2 : 1)) open.push_back(n);
        }
        for (const auto& [name, d] : hub().registry())
        {
            if (d->name() != name) types.push_back(quote("$" + std::string(name)));
            if (universe.count(d->name())) types.push_back(defJson(*d));
        }
        for (const auto& [d, c] : hub().pool())
            if (universe.count(d->name()) && !c.empty()) cached.push_back(quote(d->name()));
        world.raw("typesS", arr(types)).raw("cachedS", arr(cached)).raw("openS", strs(open)).raw("seenS", strs(seen));
        return Obj{}.raw("out", out.done()).raw("world", world.done()).done();
    }
};

static dots::vector_t<dots::string_t> list(const J& j)
{
    dots::vector_t<dots::string_t> v;
    for (auto& x : j.GetArray()) v.push_back(x.GetString());
    return v;
}

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->clear();
        std::string p = cmd.HasMember("p") ? cmd["p"].GetString() : "", t = cmd.HasMember("t") ? cmd["t"].GetString() : "";
        if (op == "Learn")
        {
            w->inject(p, *description(cmd["def"]));
            if (w->hub().registry().hasType(cmd["def"]["name"].GetString())) w->learnRef(cmd["def"]);
        }
        else if (op == "Bad") w->inject(p, *badDescription(cmd["what"].GetString()));
        else if (op == "Publish")
        {
            dots::type::AnyStruct i{ w->ref(t) };
            fillInst(*i, 1);
            w->inject(p, *World::decode(w->hub().registry().getStructType(t), World::encode(*i)));
        }
        else if (op == "LocalPublish")
        {
            dots::type::AnyStruct i{ allTypes().getStructType(t) };
            fillInst(*i, 1);
            w->hub().publish(*i);
        }
        else if (op == "LateUse") w->use(t);
        else if (op == "Join") w->inject(p, DotsMember{ .groupName = std::string(cmd["g"].GetString()), .event = DotsMemberEvent::join });
        else if (op == "Request")
        {
            DotsDescriptorRequest r;
            auto absent = [](const J& j) { return j.IsArray() && j.Size() == 1 && std::string(j[0].GetString()) == "-"; };
            if (!absent(cmd["wl"])) r.whitelist = list(cmd["wl"]);
            if (!absent(cmd["bl"])) r.blacklist = list(cmd["bl"]);
            w->inject(p, r);
        }
        else if (op == "Echo")
        {
            DotsEcho e{ .identifier = 7u, .sequenceNumber = 9u, .data = "hello" };
            std::string k = cmd["e"].GetString();
            if (k != "none") e.request = k == "req";
            w->inject(p, e);
        }
        else if (op == "Leave")
        {
            if (auto c = w->peers[p].weak.lock()) { c->broken = true; c->fail("gone"); }
            w->peers[p].channel.reset();
        }
        else if (op == "Return") { w->peers[p].channel.reset(); w->join(p); w->clear(); }
        else throw std::runtime_error("harness: " + op);
        w->io.restart();
        w->io.poll();
        return w->observe();
    });
}
