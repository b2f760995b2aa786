// Drives a dots::HostTransceiver and several dots::GuestTransceiver objects that
// are connected by dots::io::LocalChannel, one message at a time (specs/System.tla).
#include "common.h"
#include <set>
#include <boost/asio/io_context.hpp>
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/LocalListener.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;
namespace asio = boost::asio;

struct GuestChannel : dots::io::LocalChannel
{
    using LocalChannel::LocalChannel;
    void fail() { auto keep = shared_from_this(); processError("channel failure"); }
};

struct Link
{
    asio::io_context up, down; // what the host and what the guest is going to receive
    dots::io::LocalListener* listener = nullptr;
};

struct World;
struct Guest
{
    World& w;
    asio::io_context io;
    std::unique_ptr<dots::GuestTransceiver> dots;
    std::weak_ptr<GuestChannel> channel;
    std::vector<std::string> ev, rep;
    std::map<std::string, dots::Subscription> subs;
    Guest(World& w_) : w(w_) {}
};

struct World
{
    asio::io_context io;
    std::map<int, std::unique_ptr<Link>> links;
    Family fam;
    std::vector<std::string> types;
    std::unique_ptr<dots::HostTransceiver> host;
    std::map<int, std::unique_ptr<Guest>> guests;
    std::map<const dots::Connection*, int> conns;
    std::map<long long, int> ids;
    std::set<int> open;
    int accepting = 0;
    std::vector<std::string> hev;
    std::vector<dots::Subscription> hsubs;

    World(const J& c) : fam(c["family"].GetString(), false)
    {
        for (auto& t : c["types"].GetArray()) types.push_back(t.GetString());
        host = std::make_unique<dots::HostTransceiver>("host", io, dots::type::Registry::StaticTypePolicy::All,
            dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& conn, std::exception_ptr)
            {
                if (conns.count(&conn) == 0)
                {
                    conns[&conn] = accepting;
                    ids[conn.peerId()] = accepting;
                    open.insert(accepting);
                }
                if (conn.state() == DotsConnectionState::closed)
                {
                    open.erase(conns[&conn]);
                    conns.erase(&conn);
                }
            } });
        for (auto& t : types)
            hsubs.push_back(host->subscribe(fam.type(t[0]), dots::Transceiver::event_handler_t<>{ [this, t](const dots::Event<>& e)
            {
                hev.push_back(Obj{}.str("t", t).raw("v", fam.abst(e.updated())).str("mt", mt(e)).num("snd", sender(e.header())).done());
            } }));
        for (auto& g : c["guests"].GetArray()) guests[g.GetInt()] = std::make_unique<Guest>(*this);
        for (auto& g : c["start"].GetArray())
        {
            int n = g.GetInt();
            openGuest(n, n, true, {});
            settle();
            for (auto& t : types) { subscribe(n, t); settle(); }
        }
        for (auto& g : c["start"].GetArray()) for (auto& t : types)
        {
            auto i = fam.inst(t[0], 1, 1, 0);
            guests[g.GetInt()]->dots->publish(*i);
            settle();
            if (t != "U") { guests[g.GetInt()]->dots->remove(*i); settle(); }
        }
    }
    ~World()
    {
        for (auto& [n, g] : guests) { (void)n; g->dots.reset(); g->subs.clear(); }
        host.reset();
        hsubs.clear();
    }

    static const char* mt(const dots::Event<>& e) { return e.isCreate() ? "create" : e.isUpdate() ? "update" : "remove"; }
    long long linkOf(long long id) const { if (id == 1) return 0; auto it = ids.find(id); return it == ids.end() ? -id : it->second; }
    long long sender(const DotsHeader& h) const { return h.sender.isValid() ? linkOf(*h.sender) : -9; }

    static bool one(asio::io_context& c) { c.restart(); return c.poll_one() != 0; }
    void settle()
    {
        bool more = true;
        while (more)
        {
            more = false;
            for (auto& [l, link] : links) { accepting = l; while (one(link->up)) more = true; while (one(link->down)) more = true; }
            tidy();
        }
    }
    void tidy()
    {
        for (auto& [n, g] : guests) { (void)n; g->io.restart(); g->io.poll(); }
        io.restart();
        io.poll();
    }

    void openGuest(int n, int l, bool fresh, const dots::type::DescriptorMap& preload)
    {
        Guest& g = *guests.at(n);
        if (fresh)
        {
            g.subs.clear();
            g.dots = std::make_unique<dots::GuestTransceiver>("g" + std::to_string(n), g.io, dots::type::Registry::StaticTypePolicy::All,
                dots::GuestTransceiver::transition_handler_t{ [&g](const dots::Connection& conn, std::exception_ptr e)
                {
                    if (conn.state() == DotsConnectionState::connected || conn.state() == DotsConnectionState::closed)
                        g.rep.push_back(Obj{}.str("s", dots::to_string(conn.state())).boolean("err", e != nullptr).done());
                } });
        }
        auto& link = links[l] = std::make_unique<Link>();
        auto listener = std::make_unique<dots::io::LocalListener>(link->up);
        link->listener = listener.get();
        host->listen(std::move(listener));
        auto channel = dots::io::make_channel<GuestChannel>(link->down, *link->listener);
        g.channel = channel;
        g.dots->open({}, preload, std::nullopt, std::move(channel));
    }

    void subscribe(int n, const std::string& t)
    {
        Guest& g = *guests.at(n);
        g.subs.insert_or_assign(t, g.dots->subscribe(fam.type(t[0]), dots::Transceiver::event_handler_t<>{ [this, &g, t](const dots::Event<>& e)
        {
            Obj o;
            o.str("t", t).raw("v", fam.abst(e.updated())).str("mt", mt(e)).num("snd", sender(e.header()));
            o.boolean("mine", e.header().isFromMyself == true).num("fc", e.header().fromCache.isValid() ? (long long)*e.header().fromCache : -1);
            g.ev.push_back(o.done());
        } }));
    }

    dots::type::AnyStruct inst(const J& cmd)
    {
        const J& v = cmd["v"];
        return fam.inst(cmd["t"].GetString()[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
    }

    std::string entries(const dots::Transceiver* tr)
    {
        Obj o;
        for (auto& t : types) if (t != "U")
        {
            std::vector<std::string> es;
            if (tr != nullptr)
                for (const auto& [i, ci] : tr->container(fam.type(t[0])))
                    es.push_back(Obj{}.raw("v", fam.abst(*i)).num("by", ci.lastUpdateFrom.isValid() ? linkOf(*ci.lastUpdateFrom) : -9).done());
            o.raw(t, arr(es));
        }
        return o.done();
    }

    std::string observe(bool exc)
    {
        std::vector<std::string> ev, rep, gs, op;
        for (auto& [n, g] : guests)
        {
            (void)n;
            ev.push_back(arr(g->ev));
            rep.push_back(arr(g->rep));
            gs.push_back(Obj{}.raw("c", entries(g->dots.get())).boolean("on", g->dots && g->dots->connected()).boolean("held", !g->channel.expired()).done());
        }
        for (int l : open) op.push_back(std::to_string(l));
        return Obj{}.raw("host", entries(host.get())).raw("hev", arr(hev)).raw("ev", arr(ev)).raw("rep", arr(rep)).boolean("exc", exc).raw("guests", arr(gs)).raw("openS", arr(op)).done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); for (auto& [n, g] : w->guests) { (void)n; g->ev.clear(); g->rep.clear(); } return "{}"; }
        w->hev.clear();
        for (auto& [n, g] : w->guests) { (void)n; g->ev.clear(); g->rep.clear(); }
        bool exc = false;
        auto guest = [&]() -> Guest& { return *w->guests.at(cmd["g"].GetInt()); };
        try
        {
            if (op == "Up")
            {
                w->accepting = cmd["l"].GetInt();
                if (!World::one(w->links.at(w->accepting)->up)) return Obj{}.str("exception", "nothing for the host").done();
            }
            else if (op == "Down")
            {
                if (!World::one(w->links.at(cmd["l"].GetInt())->down)) return Obj{}.str("exception", "nothing for the guest").done();
            }
            else if (op == "Open")
            {
                dots::type::DescriptorMap m;
                if (cmd["preload"].IsArray()) for (auto& t : cmd["preload"].GetArray()) m.emplace(const_cast<dots::type::StructDescriptor&>(w->fam.type(t.GetString()[0])));
                w->openGuest(cmd["g"].GetInt(), cmd["l"].GetInt(), cmd["fresh"].GetBool(), m);
            }
            else if (op == "Subscribe") w->subscribe(cmd["g"].GetInt(), cmd["t"].GetString());
            else if (op == "Publish" || op == "HostPublish")
            {
                auto i = w->inst(cmd);
                dots::Transceiver& t = op == "Publish" ? static_cast<dots::Transceiver&>(*guest().dots) : *w->host;
                if (cmd["rm"].GetBool()) t.remove(*i);
                else t.publish(*i);
            }
            else if (op == "Unsubscribe") guest().subs.erase(cmd["t"].GetString());
            else if (op == "Clear") guest().dots->publish(DotsClearCache{ .typeNames = dots::vector_t<dots::string_t>{ w->fam.type(cmd["t"].GetString()[0]).name() } });
            else if (op == "Fail") guest().channel.lock()->fail();
            else if (op == "Destroy") { guest().dots.reset(); guest().subs.clear(); }
            else throw std::runtime_error("harness: " + op);
        }
        catch (const std::exception& e) { if (std::string(e.what()).rfind("harness:", 0) == 0) throw; exc = true; }
        w->tidy();
        return w->observe(exc);
    });
}
