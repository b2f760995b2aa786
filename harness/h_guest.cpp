// Drives a dots::GuestTransceiver whose host is a scripted channel (specs/Guest.tla).
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/GuestTransceiver.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;

struct World
{
    boost::asio::io_context io;
    bool dyn;
    std::vector<std::string> cached, slots, rep;
    std::map<std::string, std::vector<std::string>> ev;
    std::unique_ptr<dots::GuestTransceiver> guest;
    std::unique_ptr<Family> fam;
    std::weak_ptr<ScriptChannel> channel;
    std::vector<std::string> tx;
    std::map<std::string, dots::Subscription> subs;

    World(const J& c) : dyn(c["dyn"].GetBool())
    {
        for (auto& h : c["types"].GetArray()) if (std::string(h.GetString()) != "U") cached.push_back(h.GetString());
        for (auto& h : c["slots"].GetArray()) slots.push_back(h.GetString());
        guest = std::make_unique<dots::GuestTransceiver>("me", io, dyn ? dots::type::Registry::StaticTypePolicy::InternalOnly : dots::type::Registry::StaticTypePolicy::All,
            dots::GuestTransceiver::transition_handler_t{ [this](const dots::Connection& conn, std::exception_ptr e)
            {
                rep.push_back(Obj{}.str("s", dots::to_string(conn.state())).boolean("err", e != nullptr).done());
            } });
        fam = std::make_unique<Family>(c["family"].GetString(), dyn, &guest->registry());
    }
    ~World()
    {
        guest.reset();
        subs.clear();
    }

    DotsHeader header(const dots::type::Struct& s)
    {
        DotsHeader h{ .typeName = s._descriptor().name() };
        h.attributes = s._validProperties();
        h.serverSentTime = dots::timepoint_t::Now();
        return h;
    }
    void inject(const dots::type::Struct& s) { channel.lock()->inject(header(s), s); }

    std::string typeTag(const std::string& name)
    {
        for (char c : std::string("CDEU")) if (fam->type(c).name() == name) return std::string(1, c);
        return name;
    }

    std::string sentJson(const Sent& s)
    {
        const auto& i = *s.instance;
        const auto& d = i._descriptor();
        Obj o;
        if (auto* m = i._as<DotsMsgConnect>())
        {
            if (m->preloadClientFinished == true) return o.str("m", "predone").done();
            return o.str("m", m->clientName == "me" && m->preloadCache == true ? "connect" : "?").done();
        }
        if (auto* m = i._as<DotsMsgError>()) return o.str("m", !m->errorCode.isValid() ? "?" : *m->errorCode == 0 ? "bye" : "err").done();
        if (auto* m = i._as<DotsMember>())
            return o.str("m", m->event == DotsMemberEvent::join ? "join" : m->event == DotsMemberEvent::leave ? "leave" : "?").str("t", m->groupName.isValid() ? typeTag(*m->groupName) : "-").done();
        for (char c : std::string("CDEU")) if (&fam->type(c) == &d)
        {
            dots::property_set_t inc = s.header.attributes.isValid() ? *s.header.attributes : dots::property_set_t{};
            dots::type::AnyStruct wire{ d };
            wire->_copy(i, inc ^ i._validProperties());
            o.str("m", "pub").str("t", std::string(1, c)).raw("v", fam->abst(*wire)).raw("attrS", fam->propNames(inc)).boolean("rm", s.header.removeObj == true);
            if (s.header.typeName != d.name()) o.boolean("badname", true);
            if (!s.header.sentTime.isValid()) o.boolean("nosent", true);
            return o.done();
        }
        return o.str("m", d.name()).done();
    }
    // the description of a type, if it is one of the family's
    std::string description(const Sent& s)
    {
        if (auto* m = s.instance->_as<StructDescriptorData>())
            for (char c : std::string("CDEU")) if (m->name == fam->type(c).name()) return Obj{}.str("m", "desc").str("t", std::string(1, c)).done();
        return {};
    }
    void onSent(const Sent& s)
    {
        if (s.instance->_is<EnumDescriptorData>() || s.instance->_is<StructDescriptorData>())
        {
            if (auto d = description(s); !d.empty()) tx.push_back(d);
        }
        else tx.push_back(sentJson(s));
    }

    void subscribe(const std::string& s)
    {
        const auto& d = fam->type(s[1]);
        auto snd = [](const DotsHeader& h) { return h.sender.isValid() ? (long long)*h.sender : -9; };
        if (s[0] == 'r')
            subs.insert_or_assign(s, guest->subscribe(d, dots::Transceiver::transmission_handler_t{ [this, s, snd](const dots::io::Transmission& t)
            {
                ev[s].push_back(Obj{}.raw("v", fam->abst(*t.instance())).raw("incS", fam->propNames(*t.header().attributes)).boolean("rm", t.header().removeObj == true).num("snd", snd(t.header())).done());
            } }));
        else
            subs.insert_or_assign(s, guest->subscribe(d, dots::Transceiver::event_handler_t<>{ [this, s, snd](const dots::Event<>& e)
            {
                Obj o;
                o.raw("v", fam->abst(e.updated())).str("mt", e.isCreate() ? "create" : e.isUpdate() ? "update" : "remove").num("snd", snd(e.header()));
                o.boolean("mine", e.header().isFromMyself == true).num("fc", e.header().fromCache.isValid() ? (long long)*e.header().fromCache : -1);
                ev[s].push_back(o.done());
            } }));
    }

    dots::type::DescriptorMap map(const J& names)
    {
        dots::type::DescriptorMap m;
        if (names.IsArray()) for (auto& n : names.GetArray()) m.emplace(const_cast<dots::type::StructDescriptor&>(fam->type(n.GetString()[0])));
        return m;
    }

    std::string observe(bool exc, bool armed)
    {
        Obj o, oc, oe;
        if (guest) for (auto& c : cached)
        {
            std::vector<std::string> es;
            for (const auto& [i, ci] : guest->container(fam->type(c[0])))
                es.push_back(Obj{}.raw("v", fam->abst(*i)).num("by", ci.lastUpdateFrom.isValid() ? (long long)*ci.lastUpdateFrom : -9).done());
            oc.raw(c, arr(es));
        }
        for (auto& s : slots) oe.raw(s, arr(ev[s]));
        o.raw("tx", arr(tx)).raw("rep", arr(rep)).raw("ev", oe.done()).raw("cache", oc.done()).boolean("exc", exc).boolean("armed", armed);
        o.boolean("conn", guest && guest->connected()).boolean("held", !channel.expired());
        return o.done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->tx.clear(); w->rep.clear(); w->ev.clear();
        bool exc = false;
        int before = w->channel.expired() ? 0 : w->channel.lock()->receiving;
        try
        {
            if (op == "Open")
            {
                auto c = dots::io::make_channel<ScriptChannel>();
                c->onSent = [w = w.get()](const Sent& s) { w->onSent(s); };
                w->guest->open(w->map(cmd["pubs"]), w->map(cmd["subs"]), std::nullopt, c);
                w->channel = c;
            }
            else if (op == "Hello") w->inject(DotsMsgHello{ .serverName = "srv", .authChallenge = 0 });
            else if (op == "Response") w->inject(DotsMsgConnectResponse{ .clientId = 7, .accepted = cmd["acc"].GetBool(), .preload = cmd["preload"].GetBool() });
            else if (op == "Fin") w->inject(DotsMsgConnectResponse{ .preloadFinished = true });
            else if (op == "Update")
            {
                const J& v = cmd["v"];
                auto i = w->fam->inst(cmd["t"].GetString()[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
                DotsHeader h = w->header(*i);
                h.attributes = w->fam->props(i->_descriptor(), cmd["inc"]);
                if (cmd["rm"].GetBool()) h.removeObj = true;
                if (int s = cmd["snd"].GetInt()) h.sender = uint32_t(s);
                if (int n = cmd["fc"].GetInt(); n >= 0) h.fromCache = uint32_t(n);
                w->channel.lock()->inject(h, std::move(i));
            }
            else if (op == "Info") w->inject(DotsCacheInfo{ .typeName = w->fam->type(cmd["t"].GetString()[0]).name(), .endTransmission = true });
            else if (op == "Bad")
            {
                std::string what = cmd["what"].GetString();
                if (what == "nokey") { auto i = w->fam->inst('C', 0, 1, 1); w->inject(*i); }
                else if (what == "connect") w->inject(DotsMsgConnect{ .clientName = "x", .preloadCache = true });
                else if (what == "emptyhello") w->inject(DotsMsgHello{});
                else if (what == "emptyresponse") w->inject(DotsMsgConnectResponse{ .accepted = true });
                else throw std::runtime_error("harness: " + what);
            }
            else if (op == "PeerError") w->inject(DotsMsgError{ .errorCode = cmd["zero"].GetBool() ? 0 : 3, .errorText = "host failure" });
            else if (op == "ChannelError") w->channel.lock()->fail("channel failure");
            else if (op == "Break") w->channel.lock()->broken = true;
            else if (op == "Publish")
            {
                const J& v = cmd["v"];
                std::string t = cmd["t"].GetString();
                dots::type::AnyStruct i = t == "S" ? make("VtOnlySub", rapidjson::Document{}.Parse("{\"a\":1}")) : w->fam->inst(t[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
                const J& inc = cmd["inc"];
                bool all = inc.IsArray() && inc.Size() == 1 && std::string(inc[0].GetString()) == "all";
                if (cmd["rm"].GetBool()) w->guest->remove(*i);
                else if (all) w->guest->publish(*i);
                else w->guest->publish(*i, inc.IsArray() ? w->fam->props(i->_descriptor(), inc) : dots::property_set_t{});
            }
            else if (op == "Subscribe") w->subscribe(cmd["s"].GetString());
            else if (op == "Unsubscribe") w->subs.erase(cmd["s"].GetString());
            else if (op == "Destroy") w->guest.reset();
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::exception& e) { if (std::string(e.what()).rfind("harness:", 0) == 0) throw; exc = true; }
        w->io.poll();
        w->io.restart();
        return w->observe(exc, !w->channel.expired() && w->channel.lock()->receiving > before);
    });
}
