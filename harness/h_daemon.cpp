// Drives a dots::DotsDaemon whose guests are scripted channels and whose clock
// stands still unless told otherwise (specs/Daemon.tla).
#include "common.h"
#include "clock.h"
#include <DotsDaemon.h>
#include <dots/HostTransceiver.h>
#include <dots/io/Io.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;

#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

struct Client
{
    std::shared_ptr<ScriptChannel> channel;
    DotsDaemonStatus status; // as told to the client
    bool watching = false;
};

struct World
{
    int max;
    bool status;
    std::vector<std::string> objs;
    std::map<int, Client> clients;
    std::map<uint32_t, int> ids;
    int accepting = 0;
    std::unique_ptr<dots::DotsDaemon> daemon;
    dots::HostTransceiver* host;
    std::unique_ptr<Family> fam;
    ScriptListener* listener;

    World(const J& c) : max(c["max"].GetInt()), status(c.HasMember("status") && c["status"].GetBool())
    {
        for (auto& o : c["objs"].GetArray()) objs.push_back(o.GetString());
        const char* argv[] = { "dotsd", "--dots-endpoint=tcp://127.0.0.1:0", "--dots-log-level=8" };
        daemon = std::make_unique<dots::DotsDaemon>("srv", 3, const_cast<char**>(argv));
        host = &static_cast<dots::HostTransceiver&>(daemon->transceiver());
        fam = std::make_unique<Family>("Int", true, &host->registry());
        auto l = std::make_unique<ScriptListener>();
        listener = l.get();
        host->listen(std::move(l));
        settle(dots::io::global_io_context());
        observe("-"); // creates the containers that it looks into
    }
    ~World() { for (auto& [i, c] : clients) c.channel.reset(); daemon.reset(); }

    int tag(uint32_t id) { return id == dots::Connection::HostId ? 0 : ids.count(id) ? ids[id] : -5; }
    template <typename P>
    int tagOf(const P& p) { return p.isValid() ? tag(*p) : -9; }
    uint32_t idOf(int i) { for (auto& [id, k] : ids) if (k == i) return id; throw std::runtime_error("harness: id"); }

    void accept(int i)
    {
        Client& x = clients[i] = {};
        x.channel = dots::io::make_channel<ScriptChannel>("tcp://10.0.0." + std::to_string(i) + ":1000");
        std::set<uint32_t> known;
        for (const auto& [inst, ci] : host->container<DotsClient>()) known.insert(*inst.to<DotsClient>().id);
        listener->accept(x.channel);
        // the one client object that has not been there before belongs to the new client
        uint32_t fresh = 0;
        for (const auto& [inst, ci] : host->container<DotsClient>()) if (!known.count(*inst.to<DotsClient>().id)) fresh = *inst.to<DotsClient>().id;
        if (fresh == 0 || ids.count(fresh) || fresh == dots::Connection::HostId) throw std::runtime_error("a new client has no object of its own");
        ids[fresh] = i;
    }
    dots::type::AnyStruct object(const std::string& o)
    {
        if (o == "L")
            return DotsAuthenticationPolicy{ .nameSpace = "", .accept = false };
        return fam->inst(o[0], 1, 1, 1);
    }
    const dots::Container<>& container(const std::string& o)
    {
        return o == "L" ? static_cast<const dots::Container<>&>(host->container<DotsAuthenticationPolicy>()) : host->container(fam->type(o[0]));
    }
    void inject(int i, const dots::type::Struct& s, std::optional<dots::property_set_t> attr = std::nullopt, bool rm = false)
    {
        DotsHeader h{ .typeName = s._descriptor().name() };
        h.attributes = attr.value_or(s._validProperties());
        if (rm) h.removeObj = true;
        clients[i].channel->inject(h, s);
    }

    std::string clientJson(const DotsClient& c, int who, bool container, int cr)
    {
        Obj o;
        o.str("st", c.connectionState.isValid() ? std::string(dots::to_string(*c.connectionState)) : "-");
        o.str("name", !c.name.isValid() ? "-" : *c.name == "<not_set>" ? "ns" : *c.name == "g" + std::to_string(who) ? "g" : *c.name);
        o.str("run", !c.running.isValid() ? "-" : *c.running ? "T" : "F");
        if (c.publishedTypes.isValid() || c.subscribedTypes.isValid()) o.boolean("alien", true);
        return o.done().substr(1, o.done().size() - 2);
    }
    std::string sentJson(const Sent& s)
    {
        const auto* c = s.instance->_as<DotsClient>();
        dots::property_set_t inc = s.header.attributes.isValid() ? *s.header.attributes : dots::property_set_t{};
        DotsClient wire;
        wire._copy(*c, inc ^ c->_validProperties());
        bool rm = s.header.removeObj == true;
        Obj o;
        o.num("id", tagOf(wire.id)).boolean("rm", rm).num("snd", tagOf(s.header.sender)).num("fc", s.header.fromCache.isValid() ? (long long)*s.header.fromCache : -1);
        return "{" + clientJson(wire, tagOf(wire.id), false, 0) + "," + o.s + "}";
    }

    // what the clients have been told about the status of the daemon, which has to be what the daemon knows
    void statusJson(Obj& o, int seconds)
    {
        const auto& pool = host->pool();
        const auto* statuses = pool.find("DotsDaemonStatus");
        size_t memory = 0;
        for (const auto& [descriptor, container] : pool)
        {
            memory += sizeof(dots::Container<dots::type::Struct>) + container.size() * sizeof(dots::Container<dots::type::Struct>::value_t);
            for (const auto& [instance, information] : container) memory += instance->_totalMemoryUsage();
        }
        const DotsDaemonStatus* st = !statuses || statuses->empty() ? nullptr : &statuses->begin()->first.to<DotsDaemonStatus>();
        bool right = st && statuses->size() == 1 && st->serverName == "srv" && st->startTime.isValid() && std::abs((dots::timepoint_t::Now() - *st->startTime).count()) < 600
            && st->cache.isValid() && st->cache->nrTypes == pool.size() && st->cache->size == memory
            && st->resourceUsage.isValid() && st->resourceUsage->maxRss.isValid() && *st->resourceUsage->maxRss > 0 && tagOf(statuses->begin()->second.createdFrom) == 0;
        std::vector<std::string> same;
        bool atMost = true;
        for (auto& [i, c] : clients)
        {
            if (!c.channel) continue;
            int count = 0;
            for (auto& s : c.channel->sent) if (const auto* d = s.instance->_as<DotsDaemonStatus>())
            {
                dots::property_set_t inc = s.header.attributes.isValid() ? *s.header.attributes : dots::property_set_t{};
                c.status._copy(*d, inc);
                if (!s.header.fromCache.isValid()) ++count;
            }
            if (count > seconds) atMost = false;
            if (c.watching && c.channel.use_count() > 1 && (st ? c.status._equal(*st) : c.status._validProperties().empty())) same.push_back(std::to_string(i));
        }
        o.raw("status", Obj{}.boolean("there", st != nullptr).boolean("right", right).boolean("atMost", atMost).done()).raw("sameS", arr(same));
    }

    std::string observe(const std::string& acc, bool status = false, int seconds = 0)
    {
        Obj o, oo;
        if (status) statusJson(o, seconds);
        std::map<int, std::string> recs;
        bool alien = false;
        for (const auto& [inst, ci] : host->container<DotsClient>())
        {
            const auto& c = inst.to<DotsClient>();
            int i = tagOf(c.id);
            if (i <= 0) alien = true;
            recs[i] = "{" + clientJson(c, i, true, 0) + ",\"cr\":" + std::to_string(tagOf(ci.createdFrom)) + ",\"up\":" + std::to_string(tagOf(ci.lastUpdateFrom)) + "}";
        }
        std::vector<std::string> r, tx, live;
        for (int i = 1; i <= max; ++i)
        {
            r.push_back(recs.count(i) ? recs[i] : "{\"st\":\"-\",\"name\":\"-\",\"run\":\"-\",\"cr\":-1,\"up\":-1}");
            std::vector<std::string> v;
            if (auto& ch = clients[i].channel)
            {
                for (auto& s : ch->sent) if (s.instance->_is<DotsClient>()) v.push_back(sentJson(s));
                if (ch.use_count() > 1) live.push_back(std::to_string(i));
            }
            tx.push_back(arr(v));
        }
        for (auto& n : objs)
        {
            std::string v = "{\"cr\":-1,\"up\":-1}";
            for (const auto& [inst, ci] : container(n)) v = Obj{}.num("cr", tagOf(ci.createdFrom)).num("up", tagOf(ci.lastUpdateFrom)).done();
            oo.raw(n, v);
        }
        o.raw("recs", arr(r)).raw("objs", oo.done()).raw("tx", arr(tx)).str("acc", acc).raw("liveS", arr(live));
        if (alien) o.boolean("exception", true);
        return o.done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        int i = cmd.HasMember("i") ? cmd["i"].GetInt() : 0;
        for (auto& [k, c] : w->clients) if (c.channel) c.channel->sent.clear();
        std::string acc = "-";
        auto& x = w->clients[i];
        if (op == "Accept")
        {
            w->accept(i);
        }
        else if (op == "Connect")
        {
            DotsMsgConnect m{ .clientName = "g" + std::to_string(i), .preloadCache = cmd["pre"].GetBool() };
            w->inject(i, m);
            acc = "?";
            for (auto& s : x.channel->sent) if (auto* r = s.instance->_as<DotsMsgConnectResponse>(); r && r->accepted.isValid()) acc = *r->accepted ? "yes" : "no";
        }
        else if (op == "Finish") w->inject(i, DotsMsgConnect{ .preloadClientFinished = true });
        else if (op == "Leave")
        {
            std::string how = cmd["how"].GetString();
            if (how == "fail") x.channel->fail("channel failure");
            else w->inject(i, DotsMsgError{ .errorCode = how == "bye" ? 0 : 3, .errorText = "bye" });
        }
        else if (op == "Join") w->inject(i, DotsMember{ .groupName = "DotsClient", .event = DotsMemberEvent::join });
        else if (op == "Watch")
        {
            x.watching = true;
            w->inject(i, DotsMember{ .groupName = "DotsDaemonStatus", .event = DotsMemberEvent::join });
        }
        else if (op == "Break") x.channel->broken = true;
        else if (op == "Publish") w->inject(i, *w->object(cmd["o"].GetString()));
        else if (op == "Remove")
        {
            auto ob = w->object(cmd["o"].GetString());
            w->inject(i, *ob, ob->_keyProperties(), true);
        }
        else if (op == "Claim")
        {
            DotsClient c{ .id = w->idOf(cmd["j"].GetInt()) };
            std::string what = cmd["what"].GetString();
            if (what == "run" || what == "other") c.running = true;
            if (what == "closed") c.connectionState = DotsConnectionState::closed;
            w->inject(i, c, std::nullopt, what == "remove");
        }
        else if (op == "Advance") advance(dots::io::global_io_context(), cmd["s"].GetInt() * 1000);
        else throw std::runtime_error("harness: " + op);
        return w->observe(acc, w->status, op == "Advance" ? cmd["s"].GetInt() : 0);
    });
}
