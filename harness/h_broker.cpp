// Drives a dots::HostTransceiver whose guests are scripted channels (specs/Broker.tla).
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/HostTransceiver.h>
#include <dots/io/auth/Digest.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

static boost::asio::io_context& ioContext() { static boost::asio::io_context c; return c; }

static std::vector<std::string> uniq(const std::vector<std::string>& v)
{
    std::set<std::string> s(v.begin(), v.end());
    return { s.begin(), s.end() };
}

struct World;
static World* current = nullptr;

struct StubAuth : dots::io::AuthManager
{
    using AuthManager::AuthManager;
    std::optional<dots::io::Nonce> requiresAuthentication(const dots::io::Endpoint& e, std::string_view g) override;
    bool verifyAuthentication(const dots::io::Endpoint&, std::string_view, dots::io::Nonce, dots::io::Nonce, const dots::io::Digest&) override { return false; }
    bool verifyAuthentication(const dots::io::Endpoint& e, std::string_view g, dots::io::Nonce n, std::string_view c, const dots::io::Digest& d) override;
};

struct Guest
{
    std::shared_ptr<ScriptChannel> channel;
    std::weak_ptr<ScriptChannel> weak;
    uint64_t nonce = 0;
    uint32_t id = 0;
    std::string remote;
    int claim = 0;
    std::string name, cnonce, digest;
};

struct World
{
    bool dyn;
    bool stub;
    bool bare; // nobody on the host subscribes: it only relays
    std::string alien;
    std::vector<std::string> cached;
    int n;
    std::map<int, Guest> guests;
    std::map<uint32_t, int> ids; // connection id -> guest
    std::set<uint32_t> used;
    std::vector<std::string> ev, auth;
    std::map<int, std::vector<std::string>> rep;
    std::map<int, std::vector<std::string>> sentBefore;
    int accepting = 0, connecting = 0;
    uint64_t nonces = 1000;
    bool dupId = false;
    std::unique_ptr<dots::HostTransceiver> host;
    std::unique_ptr<Family> fam;
    ScriptListener* listener = nullptr;
    std::vector<dots::Subscription> subs;

    World(const J& c) : dyn(c["dyn"].GetBool()), stub(std::string(c["auth"].GetString()) == "stub"), bare(c["bare"].GetBool()), alien(c["alien"].GetString()), n(c["guests"].GetInt())
    {
        current = this;
        for (auto& h : c["types"].GetArray()) if (std::string(h.GetString()) != "U") cached.push_back(h.GetString());
        host = std::make_unique<dots::HostTransceiver>("srv", ioContext(), dyn ? dots::type::Registry::StaticTypePolicy::InternalOnly : dots::type::Registry::StaticTypePolicy::All,
            dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& conn, std::exception_ptr e) { onTransition(conn, e); } });
        fam = std::make_unique<Family>(c["family"].GetString(), dyn, &host->registry());
        if (stub) host->setAuthManager<StubAuth>();
        auto l = std::make_unique<ScriptListener>();
        listener = l.get();
        host->listen(std::move(l));
        for (char t : std::string(bare ? "" : "DEUC"))
        {
            if (std::string r = c["reactor"].GetString(); t == 'D' && r != "none")
                subs.push_back(host->subscribe(fam->type('D'), [this, r, host = host.get()](const dots::Event<>& e)
                {
                    if (!e.isRemove()) return;
                    if (r == "again")
                    {
                        host->publish(*fam->inst(fam->type('D'), fam->keyIndex(e.updated()), 1, 0));
                        return;
                    }
                    const auto& con = host->container(fam->type('D'));
                    if (con.empty()) return;
                    dots::type::AnyStruct next{ con.begin()->first };
                    if (r == "remove") host->remove(*next);
                    else host->publish(*fam->inst(fam->type('D'), fam->keyIndex(*next), 1, 0));
                }));
            if (c["thrower"].GetBool())
                subs.push_back(host->subscribe(fam->type(t), [](const dots::Event<>&) { throw std::runtime_error("subscriber failure"); }));
            subs.push_back(host->subscribe(fam->type(t), [this, t](const dots::Event<>& e)
            {
                Obj o;
                o.str("t", std::string(1, t)).raw("v", fam->abst(e.updated())).str("mt", e.isCreate() ? "create" : e.isUpdate() ? "update" : "remove");
                o.num("snd", tag(e.header().sender.isValid() ? *e.header().sender : 0)).boolean("mine", e.isFromMyself());
                if (!recent(e.header().serverSentTime)) o.boolean("nosst", true);
                if (!e.header().sentTime.isValid()) o.boolean("nosent", true);
                ev.push_back(o.done());
            }));
        }
        if (c["started"].GetBool())
            for (int g = 1; g <= n; ++g) { accept(g, true); connect(g, false, "good"); }
    }
    ~World()
    {
        for (auto& [g, guest] : guests) guest.channel.reset();
        host.reset();
        current = nullptr;
    }

    int tag(uint32_t id) { return id == 0 ? -9 : id == dots::Connection::HostId ? 0 : ids.count(id) ? ids[id] : -5; }
    template <typename P>
    static bool recent(const P& p) { return p.isValid() && std::abs((dots::timepoint_t::Now() - *p).count()) < 120; }
    template <typename P>
    static int at(const P& p) { return !p.isValid() ? -1 : recent(p) ? 0 : int(p->duration().toFractionalSeconds() / 1000); }

    void onTransition(const dots::Connection& conn, std::exception_ptr e)
    {
        if (conn.state() == DotsConnectionState::connecting)
        {
            if (!used.insert(conn.peerId()).second || conn.peerId() <= dots::Connection::HostId) dupId = true; // ids are never used twice
            ids[conn.peerId()] = accepting;
            guests[accepting].id = conn.peerId();
        }
        rep[tag(conn.peerId())].push_back(Obj{}.str("s", dots::to_string(conn.state())).boolean("err", e != nullptr).done());
    }

    void accept(int g, bool fine)
    {
        Guest& x = guests[g];
        x = Guest{};
        x.name = "guest" + std::to_string(g);
        x.remote = "tcp://10.0.0." + std::to_string(g) + ":1000";
        x.channel = dots::io::make_channel<ScriptChannel>(x.remote);
        x.channel->broken = !fine;
        x.weak = x.channel;
        accepting = g;
        std::vector<std::string>* keep = &sentBefore[g];
        keep->clear();
        listener->accept(x.channel);
    }

    DotsHeader header(const dots::type::Struct& s)
    {
        DotsHeader h{ .typeName = s._descriptor().name() };
        h.attributes = s._validProperties();
        return h;
    }
    // whatever a guest claims about the origin of its message must not matter
    void claims(Guest& x, DotsHeader& h)
    {
        switch (x.claim++ % 4)
        {
            case 1: h.sender = 1; h.isFromMyself = true; break;
            case 2: h.sender = 4242; h.serverSentTime = dots::timepoint_t{ dots::duration_t{ 5.0 } }; break;
            case 3: for (auto& [id, g] : ids) if (id != x.id) h.sender = id; h.isFromMyself = false; break;
        }
    }
    void inject(int g, const dots::type::Struct& s)
    {
        guests[g].channel->inject(header(s), s);
    }

    void connect(int g, bool pre, const std::string& resp)
    {
        Guest& x = guests[g];
        connecting = g;
        DotsMsgConnect m{ .clientName = x.name, .preloadCache = pre };
        if (stub)
        {
            x.cnonce = resp == "bare" ? "" : "c" + std::to_string(g);
            uint64_t nn = resp == "other" ? x.nonce + 1 : x.nonce;
            x.digest = dots::io::Digest{ dots::io::Nonce{ nn }, x.cnonce, x.name, resp == "bad" ? "wrong" : "secret" }.toString();
            if (resp != "bare") m.cnonce = x.cnonce;
            if (resp == "none") x.digest = dots::io::Digest{ "" }.toString();
            else m.authChallengeResponse = resp == "junk" ? "not a digest" : resp == "long" ? x.digest + "00" : x.digest;
        }
        inject(g, m);
    }

    std::string group(const std::string& n) { return n == "I" ? "DotsClearCache" : n == "X" ? alien : fam->type(n[0]).name(); }
    std::string abstName(const std::string& n)
    {
        for (char c : std::string("CDEU")) if (fam->type(c).name() == n) return std::string(1, c);
        return n == "DotsClearCache" ? "I" : n == alien ? "X" : n;
    }

    std::string sentJson(const Sent& s)
    {
        const auto& i = *s.instance;
        const auto& d = i._descriptor();
        Obj o;
        if (auto* m = i._as<DotsMsgHello>()) return o.str("m", "hello").boolean("ch", m->authenticationRequired == true).done();
        if (auto* m = i._as<DotsMsgConnectResponse>())
            return m->accepted.isValid() ? o.str("m", "resp").boolean("acc", *m->accepted).done() : o.str("m", m->preloadFinished == true ? "fin" : "?").done();
        if (auto* m = i._as<DotsMsgError>()) return o.str("m", !m->errorCode.isValid() ? "?" : *m->errorCode == 0 ? "bye" : "err").done();
        if (auto* m = i._as<DotsCacheInfo>()) return o.str("m", m->endTransmission == true ? "info" : "?").str("ty", m->typeName.isValid() ? abstName(*m->typeName) : "-").done();
        if (auto* m = i._as<DotsClearCache>())
        {
            std::vector<std::string> v;
            if (m->typeNames.isValid()) for (auto& t : *m->typeNames) v.push_back(quote(abstName(t)));
            return o.str("m", "clear").raw("typesS", arr(v)).done();
        }
        if (auto* m = i._as<DotsEcho>())
            return o.str("m", "echo").boolean("same", m->identifier == 7u && m->sequenceNumber == 9u && m->data == "hello").boolean("req", m->request == true).done();
        for (char c : std::string("CDEU")) if (&fam->type(c) == &d)
        {
            dots::property_set_t inc = s.header.attributes.isValid() ? *s.header.attributes : dots::property_set_t{};
            dots::type::AnyStruct wire{ d };
            wire->_copy(i, inc ^ i._validProperties());
            o.str("m", "upd").str("t", std::string(1, c)).raw("v", fam->abst(*wire)).raw("attrS", fam->propNames(inc)).boolean("rm", s.header.removeObj == true);
            o.num("snd", s.header.sender.isValid() ? tag(*s.header.sender) : -9).num("fc", s.header.fromCache.isValid() ? (long long)*s.header.fromCache : -1);
            o.num("at", at(s.header.sentTime)).boolean("sst", recent(s.header.serverSentTime));
            if (s.header.typeName != d.name()) o.boolean("badname", true);
            return o.done();
        }
        return o.str("m", d.name()).done();
    }
    static bool description(const Sent& s) { return s.header.typeName == "StructDescriptorData" || s.header.typeName == "EnumDescriptorData"; }

    std::string observe(bool exc, std::map<int, int> armedBefore, int rxg)
    {
        Obj o, oc;
        std::vector<std::string> tx, txu, reps, held;
        for (int g = 1; g <= n; ++g)
        {
            std::vector<std::string> v;
            if (guests.count(g) && guests[g].channel)
            {
                for (auto& s : guests[g].channel->sent) if (!description(s)) v.push_back(sentJson(s));
                if (guests[g].channel.use_count() > 1) held.push_back(std::to_string(g));
            }
            tx.push_back(arr(v));
            txu.push_back(Obj{}.raw("msgsS", arr(uniq(v))).num("n", v.size()).done());
            reps.push_back(arr(rep[g]));
        }
        for (auto& [g, r] : rep) if (g < 1 && !r.empty()) o.boolean("alienTransition", true);
        if (host) for (auto& c : cached)
        {
            std::vector<std::string> es;
            if (auto* con = bare ? std::as_const(*host).pool().find(fam->type(c[0])) : &host->container(fam->type(c[0])))
                for (const auto& [i, ci] : *con)
                es.push_back(Obj{}.raw("v", fam->abst(*i)).num("by", ci.lastUpdateFrom.isValid() ? tag(*ci.lastUpdateFrom) : -9).num("at", at(ci.modified)).done());
            oc.raw(c, arr(es));
        }
        o.raw("tx", arr(tx)).raw("txu", arr(txu)).raw("rep", arr(reps)).raw("heldS", arr(held)).raw("cache", oc.done());
        if (!bare) o.raw("ev", arr(ev)).raw("evS", arr(uniq(ev))).num("nev", ev.size());
        o.boolean("exc", exc).raw("auth", arr(auth));
        if (rxg) o.boolean("armed", guests[rxg].channel && guests[rxg].channel->receiving > armedBefore[rxg]);
        if (dupId) o.boolean("exception", true); // two connections shared an id
        return o.done();
    }

    void clearLog()
    {
        ev.clear(); rep.clear(); auth.clear();
        for (auto& [g, x] : guests) if (x.channel) x.channel->sent.clear();
    }
};

std::optional<dots::io::Nonce> StubAuth::requiresAuthentication(const dots::io::Endpoint& e, std::string_view g)
{
    Guest& x = current->guests[current->accepting];
    x.nonce = current->nonces += 17;
    if (std::string(e.uriStr()) != std::string(dots::io::Endpoint{ x.remote }.uriStr()) || !g.empty()) x.nonce = 0;
    return dots::io::Nonce{ x.nonce };
}
bool StubAuth::verifyAuthentication(const dots::io::Endpoint& e, std::string_view g, dots::io::Nonce n, std::string_view c, const dots::io::Digest& d)
{
    int k = current->connecting;
    Guest& x = current->guests[k];
    bool exact = g == x.name && n.value() == x.nonce && c == x.cnonce && d.toString() == x.digest && std::string(e.uriStr()) == std::string(dots::io::Endpoint{ x.remote }.uriStr());
    current->auth.push_back(Obj{}.num("g", k).boolean("exact", exact).done());
    return dots::io::Digest{ n, c, g, "secret" }.value() == d.value();
}

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->clearLog();
        bool exc = false;
        std::map<int, int> armed;
        for (auto& [g, x] : w->guests) if (x.channel) armed[g] = x.channel->receiving;
        int g = cmd.HasMember("g") ? cmd["g"].GetInt() : 0;
        bool rx = false;
        try
        {
            if (op == "Accept")
            {
                int before = w->listener->accepting;
                w->accept(g, cmd["fine"].GetBool());
                if (w->listener->accepting != before + 1) exc = true; // the listener goes on in any case
            }
            else if (op == "Connect") { rx = true; w->connect(g, cmd["pre"].GetBool(), cmd["resp"].GetString()); }
            else if (op == "PreDone") { rx = true; w->inject(g, DotsMsgConnect{ .preloadClientFinished = true }); }
            else if (op == "Member")
            {
                rx = true;
                DotsMember m{ .groupName = w->group(cmd["name"].GetString()) };
                std::string e = cmd["e"].GetString();
                if (e != "none") m.event = e == "join" ? DotsMemberEvent::join : e == "leave" ? DotsMemberEvent::leave : DotsMemberEvent::kill;
                w->inject(g, m);
            }
            else if (op == "Publish")
            {
                rx = true;
                const J& v = cmd["v"];
                auto i = w->fam->inst(cmd["t"].GetString()[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
                DotsHeader h{ .typeName = i->_descriptor().name() };
                h.attributes = w->fam->props(i->_descriptor(), cmd["inc"]);
                if (int at = cmd["at"].GetInt()) h.sentTime = dots::timepoint_t{ dots::duration_t{ at * 1000.0 + 0.5 } };
                if (cmd["rm"].GetBool()) h.removeObj = true;
                w->claims(w->guests[g], h);
                w->guests[g].channel->inject(h, std::move(i));
            }
            else if (op == "HostPublish")
            {
                const J& v = cmd["v"];
                std::string t = cmd["t"].GetString();
                bool rm = cmd["rm"].GetBool();
                dots::type::AnyStruct i = t == "S" ? make("VtOnlySub", rapidjson::Document{}.Parse("{\"a\":1}")) : w->fam->inst(t[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
                const J& inc = cmd["inc"];
                bool all = inc.IsArray() && inc.Size() == 1 && std::string(inc[0].GetString()) == "all";
                if (rm) w->host->remove(*i);
                else if (all) w->host->publish(*i);
                else w->host->publish(*i, inc.IsArray() ? w->fam->props(i->_descriptor(), inc) : dots::property_set_t{});
            }
            else if (op == "Bad")
            {
                rx = true;
                std::string what = cmd["what"].GetString();
                if (what == "nokey") { auto i = w->fam->inst('C', 0, 1, 1); w->inject(g, *i); }
                else if (what == "nokeyrm") { auto i = w->fam->inst('D', 0, 0, 0); DotsHeader h = w->header(*i); h.removeObj = true; w->guests[g].channel->inject(h, std::move(i)); }
                else if (what == "hello") w->inject(g, DotsMsgHello{ .serverName = "x", .authChallenge = 1 });
                else if (what == "response") w->inject(g, DotsMsgConnectResponse{ .clientId = 1, .accepted = true, .preload = false });
                else if (what == "clearempty") w->inject(g, DotsClearCache{});
                else if (what == "memberempty") w->inject(g, DotsMember{ .event = DotsMemberEvent::join });
                else throw std::runtime_error("harness: " + what);
            }
            else if (op == "PeerError") { rx = true; w->inject(g, DotsMsgError{ .errorCode = cmd["zero"].GetBool() ? 0 : 3, .errorText = "guest failure" }); }
            else if (op == "ChannelError") w->guests[g].channel->fail("channel failure");
            else if (op == "Break") w->guests[g].channel->broken = true;
            else if (op == "Clear")
            {
                rx = true;
                DotsClearCache m;
                m.typeNames.emplace();
                if (cmd["types"].IsArray()) for (auto& t : cmd["types"].GetArray()) m.typeNames->push_back(w->group(t.GetString()));
                w->inject(g, m);
            }
            else if (op == "Echo")
            {
                rx = true;
                DotsEcho m{ .identifier = 7, .sequenceNumber = 9, .data = "hello" };
                std::string r = cmd["req"].GetString();
                if (r != "-") m.request = r == "T";
                w->inject(g, m);
            }
            else if (op == "Shutdown") w->host.reset();
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::exception& e) { if (std::string(e.what()).rfind("harness:", 0) == 0) throw; exc = true; }
        return w->observe(exc, armed, rx ? g : 0);
    });
}
