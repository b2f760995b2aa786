// Drives dots::Application (specs/App.tla): everything is real, the host lives in
// the same event loop.
#undef DOTS_NO_GLOBAL_TRANSCEIVER
#include "common.h"
#include "sockets.h"
#include <boost/asio/io_context.hpp>
#include <boost/asio/local/stream_protocol.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/write.hpp>
#include <dots/Application.h>
#include <dots/dots.h>
#include <dots/io/Io.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <DotsClient.dots.h>
#include <dots_all.h>
#include <vt_all.h>
namespace asio = boost::asio;
using dots::Application;

static asio::io_context& io() { return dots::io::global_io_context(); }

struct Args
{
    std::vector<std::string> s{ "app" };
    std::vector<char*> v;
    char** argv() { v.clear(); for (auto& x : s) v.push_back(x.data()); v.push_back(nullptr); return v.data(); }
    int argc() const { return int(s.size()); }
};

struct Visitor
{
    std::unique_ptr<dots::GuestTransceiver> guest;
    bool left = false, error = false;
};

struct World
{
    std::unique_ptr<dots::HostTransceiver> host;
    std::unique_ptr<Application> app;
    std::string kind = "none", run;
    int port = 0, ups = 0;
    struct Peer { std::string name; };
    std::map<uint32_t, Peer> peers;
    std::vector<std::string> left, ev;
    std::vector<dots::Subscription> subs;
    bool exitOnEvent = false;
    asio::io_context gio;
    std::map<std::string, Visitor> visitors;
    int byes = 0;

    World()
    {
        static int runs = 0;
        mkdir("build/run", 0777);
        run = "build/run/a" + std::to_string(getpid()) + "." + std::to_string(runs++ % 1000);
    }
    ~World()
    {
        subs.clear();
        visitors.clear();
        try { app = nullptr; } catch (...) {}
        if (dots::global_transceiver_is_set()) dots::global_transceiver_destroy();
        host = nullptr;
        poll();
        unsetenv("DOTS_ENDPOINT");
        unsetenv("DOTS_AUTH_SECRET");
        cleanFiles();
    }
    void cleanFiles() { for (auto x : { ".h", ".r", ".e" }) unlink((run + x).c_str()); }

    void poll()
    {
        for (int quiet = 0; quiet < 4; ++quiet)
        {
            io().restart();
            gio.restart();
            if (io().poll() > 0) quiet = 0;
            if (gio.poll() > 0) quiet = 0;
            if (quiet) usleep(150);
        }
    }

    static int listeningPort()
    {
        for (int fd = 255; fd > 2; --fd)
        {
            int on = 0;
            socklen_t n = sizeof on;
            if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) != 0 || !on) continue;
            sockaddr_in a{};
            n = sizeof a;
            if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && a.sin_family == AF_INET) return ntohs(a.sin_port);
        }
        return 1;
    }

    void up(bool lock)
    {
        port = 0;
        host = std::make_unique<dots::HostTransceiver>("host", io(), dots::type::Registry::StaticTypePolicy::All,
            dots::HostTransceiver::transition_handler_t{ [this](const dots::Connection& c, std::exception_ptr e)
            {
                if (c.connected()) peers[c.peerId()] = { c.peerName() };
                else if (c.closed() && peers.count(c.peerId()))
                {
                    left.push_back(Obj{}.str("name", peers[c.peerId()].name).boolean("err", e != nullptr).done());
                    peers.erase(c.peerId());
                }
            } });
        if (lock)
        {
            host->setAuthManager<dots::io::LegacyAuthManager>();
            host->publish(DotsAuthentication{ .nameSpace = "", .network = DotsNetwork{ .network = "127.0.0.1", .prefix = uint8_t{ 32 } }, .clientName = "",
                                              .priority = uint16_t{ 1 }, .secret = "right", .accept = true });
            host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = false });
        }
        cleanFiles();
        host->listen(std::vector{ dots::io::Endpoint{ "tcp://127.0.0.1:0" }, dots::io::Endpoint{ "uds:" + run + ".h" } });
        port = listeningPort();
    }

    std::string where(const std::string& w, const std::string& who = "")
    {
        if (w == "tcp") return "tcp://" + who + "127.0.0.1:" + std::to_string(port);
        if (w == "uds") return "uds:" + run + ".h";
        if (w == "scheme") return "carrier://pigeon";
        return who.empty() ? "uds:" + run + ".none" : "tcp://" + who + "127.0.0.1:1";
    }

    template <typename F>
    bool attempt(F f)
    {
        try { f(); return true; }
        catch (const std::exception&) { return false; }
    }

    std::optional<dots::GuestTransceiver> transceiver(const std::string& k)
    {
        if (k == "own") return dots::GuestTransceiver{ "app", io() };
        return std::nullopt;
    }

    bool start(const std::string& k, Args& a)
    {
        bool ok = attempt([&]{ app = std::make_unique<Application>("app", a.argc(), a.argv(), transceiver(k)); });
        unsetenv("DOTS_ENDPOINT");
        unsetenv("DOTS_AUTH_SECRET");
        if (ok) kind = k;
        return ok;
    }

    bool start(const std::string& k, const J& f)
    {
        std::string via = f["via"].GetString(), user = f["user"].GetString(), pw = f["pw"].GetString(), src = f["src"].GetString();
        std::string who = user.empty() ? "" : user + (pw.empty() || src != "url" ? "" : ":" + pw) + "@";
        std::string e = where(f["where"].GetString(), who), other = where("nowhere");
        Args a;
        if (via == "arg") a.s.push_back("--dots-endpoint=" + e);
        if (via == "args") { a.s.push_back("--other=1"); a.s.push_back("--dots-endpoint"); a.s.push_back(e); a.s.push_back("more"); }
        if (via == "env") setenv("DOTS_ENDPOINT", e.c_str(), 1);
        if (via == "both") { a.s.push_back("--dots-endpoint=" + e); setenv("DOTS_ENDPOINT", other.c_str(), 1); }
        if (src == "arg" || src == "argenv") { a.s.push_back("--dots-auth-secret=" + pw); }
        if (src == "env") setenv("DOTS_AUTH_SECRET", pw.c_str(), 1);
        if (src == "argenv") setenv("DOTS_AUTH_SECRET", pw == "right" ? "wrong" : "right", 1);
        return start(k, a);
    }

    bool rude(const std::string& k, const std::string& how)
    {
        using proto = asio::local::stream_protocol;
        std::string path = run + ".r";
        unlink(path.c_str());
        proto::acceptor acc{ io(), proto::endpoint{ path } };
        proto::socket s{ io() };
        auto msg = [](const dots::type::Struct& m)
        {
            DotsHeader h{ .typeName = m._descriptor().name(), .sentTime = dots::timepoint_t::Now(), .attributes = m._validProperties(), .sender = 1u };
            std::string b = cbor(h) + cbor(m);
            return frame2(b, b.size());
        };
        acc.async_accept(s, [&](boost::system::error_code e)
        {
            if (e) return;
            auto say = [&](const std::string& x) { boost::system::error_code ignored; asio::write(s, asio::buffer(x), ignored); };
            auto sig = [](int n) { asio::post(io(), [n]{ raise(n); }); };
            if (how == "close") s.close();
            else if (how == "err0") say(msg(DotsMsgError{ .errorCode = 0, .errorText = "bye" }));
            else if (how == "err5") say(msg(DotsMsgError{ .errorCode = 5, .errorText = "no" }));
            else if (how == "hello") { say(msg(DotsMsgHello{ .serverName = "rude", .authChallenge = 0, .authenticationRequired = false })); s.close(); }
            else if (how == "hello0") { say(msg(DotsMsgHello{ .serverName = "rude", .authChallenge = 0, .authenticationRequired = false })); say(msg(DotsMsgError{ .errorCode = 0, .errorText = "bye" })); }
            else if (how == "refuse") { say(msg(DotsMsgHello{ .serverName = "rude", .authChallenge = 0, .authenticationRequired = false })); say(msg(DotsMsgConnectResponse{ .serverName = "rude", .accepted = false })); }
            else if (how == "helloINT") { say(msg(DotsMsgHello{ .serverName = "rude", .authChallenge = 0, .authenticationRequired = false })); sig(SIGINT); }
            else if (how == "INT") sig(SIGINT);
            else if (how == "TERM") sig(SIGTERM);
            else throw std::runtime_error("harness: " + how);
        });
        Args a;
        a.s.push_back("--dots-endpoint=uds-v2:" + path);
        bool ok = start(k, a);
        unlink(path.c_str());
        return ok;
    }

    void event(const dots::Event<VtIntC>& e)
    {
        ev.push_back(Obj{}.str("mt", e.isCreate() ? "create" : e.isUpdate() ? "update" : "remove").num("k", *e().k).num("p", e().p.valueOrDefault(0)).boolean("fromCache", e.header().fromCache.isValid()).done());
        if (exitOnEvent) app->exit(*e().p);
    }

    void sub()
    {
        if (kind == "global") subs.push_back(dots::subscribe<VtIntC>([this](const dots::Event<VtIntC>& e) { event(e); }));
        else subs.push_back(app->transceiver().subscribe<VtIntC>([this](const dots::Event<VtIntC>& e) { event(e); }));
    }

    struct Thrown {};

    int exec(const std::string& plan, const J& cmd)
    {
        std::optional<dots::Timer> timer;
        if (plan == "exit") asio::post(io(), [this]{ app->exit(3); });
        else if (plan == "late") asio::post(io(), [this]{ asio::post(io(), [this]{ app->exit(3); }); });
        else if (plan == "timer") timer.emplace(dots::create_timer(dots::duration_t{ 0.001 }, [this]{ app->exit(3); }));
        else if (plan == "INT") asio::post(io(), []{ raise(SIGINT); });
        else if (plan == "TERM") asio::post(io(), []{ raise(SIGTERM); });
        else if (plan == "throw") asio::post(io(), []{ throw Thrown{}; });
        else if (plan == "host") asio::post(io(), [this]{ host = nullptr; });
        else if (plan == "event") { exitOnEvent = true; asio::post(io(), [this, k = cmd["k"].GetInt()]{ host->publish(VtIntC{ .k = k, .p = 2 }); }); }
        else throw std::runtime_error("harness: " + plan);
        io().restart();
        // the application has more to do than to wait for its host
        asio::steady_timer busy{ io(), std::chrono::seconds{ 5 } };
        bool stuck = false;
        busy.async_wait([&](boost::system::error_code e) { if (!e) { stuck = true; io().stop(); } });
        int code = app->exec();
        if (stuck) code = -99;
        exitOnEvent = false;
        return code;
    }

    bool startHost(const std::string& list)
    {
        std::string tcp = "tcp://127.0.0.1:0", uds = "uds:" + run + ".e";
        Args a;
        cleanFiles();
        auto arg = [&](const std::string& e) { a.s.push_back("--dots-endpoint=" + e); };
        if (list == "tcp") arg(tcp);
        else if (list == "uds") arg(uds);
        else if (list == "both") { arg(uds); arg(tcp); }
        else if (list == "envs") setenv("DOTS_ENDPOINT", ("  " + uds + "  " + tcp).c_str(), 1);
        else if (list == "over") { setenv("DOTS_ENDPOINT", "carrier://pigeon", 1); arg(tcp); arg(uds); }
        else if (list == "scheme") arg("carrier://pigeon");
        else if (list == "second") { arg(uds); arg("carrier://pigeon"); }
        else throw std::runtime_error("harness: " + list);
        bool ok = attempt([&]{ app = std::make_unique<Application>(a.argc(), a.argv(), dots::HostTransceiver{ "host", io() }); });
        unsetenv("DOTS_ENDPOINT");
        if (ok) { kind = "host"; port = listeningPort(); }
        return ok;
    }

    bool visit(const std::string& e)
    {
        Visitor& v = visitors[e];
        v.guest = std::make_unique<dots::GuestTransceiver>("visitor", gio, dots::type::Registry::StaticTypePolicy::All,
            dots::GuestTransceiver::transition_handler_t{ [&v](const dots::Connection& c, std::exception_ptr x) { if (c.closed()) { v.left = true; v.error = x != nullptr; } } });
        bool ok = attempt([&]{ v.guest->open(dots::io::Endpoint{ e == "tcp" ? where("tcp") : "uds:" + run + ".e" }); });
        if (ok) poll();
        ok = ok && v.guest->connected();
        if (!ok) visitors.erase(e);
        return ok;
    }

    std::string list(const dots::Transceiver* t) const
    {
        std::vector<std::string> o;
        if (t)
            if (auto* c = t->pool().find(VtIntC::_Descriptor()))
                for (auto& [i, clone] : *c) { (void)clone; auto& v = i.to<VtIntC>(); o.push_back(Obj{}.num("k", *v.k).num("p", v.p.valueOrDefault(0)).done()); }
        return arr(o);
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(); return "{}"; }
        w->left.clear(); w->ev.clear(); w->byes = 0;
        bool ok = true, exc = false;
        int code = -1;
        auto str = [&](const char* n) { return std::string(cmd[n].GetString()); };
        if (op == "HostUp") w->up(cmd["lock"].GetBool());
        else if (op == "HostDown") { w->host = nullptr; w->peers.clear(); }
        else if (op == "Put")
        {
            int p = cmd["p"].GetInt();
            VtIntC v{ .k = cmd["k"].GetInt() };
            if (p) { v.p = p; w->host->publish(v); } else w->host->remove(v);
        }
        else if (op == "AppPut")
        {
            VtIntC v{ .k = cmd["k"].GetInt(), .p = cmd["p"].GetInt() };
            try { if (w->kind == "global") dots::publish(v); else w->app->transceiver().publish(v); }
            catch (const std::exception&) { exc = true; }
        }
        else if (op == "Start") ok = w->start(str("kind"), cmd["form"]);
        else if (op == "Rude") ok = w->rude(str("kind"), str("how"));
        else if (op == "Second")
        {
            Args a;
            a.s.push_back("--dots-endpoint=" + w->where(cmd["alone"].GetBool() ? "nowhere" : "uds"));
            std::unique_ptr<Application> second;
            ok = w->attempt([&]{ second = std::make_unique<Application>("second", a.argc(), a.argv()); });
        }
        else if (op == "Sub") w->sub();
        else if (op == "Exec")
        {
            try { code = w->exec(str("plan"), cmd); }
            catch (const World::Thrown&) { exc = true; }
            if (!w->host) w->peers.clear();
        }
        else if (op == "Quit")
        {
            w->subs.clear();
            w->app = nullptr;
            w->kind = "none";
            w->poll();
            for (auto& [e, v] : w->visitors) { (void)e; if (v.left && !v.error) ++w->byes; }
            w->visitors.clear();
        }
        else if (op == "StartHost") ok = w->startHost(str("list"));
        else if (op == "Visit") ok = w->visit(str("where"));
        else throw std::runtime_error("harness: " + op);
        w->poll();
        std::vector<std::string> clients, guests;
        for (auto& [id, p] : w->peers)
        {
            bool running = false;
            if (auto* c = w->host->pool().find(DotsClient::_Descriptor()))
                for (auto& [i, clone] : *c) { (void)clone; auto& d = i.to<DotsClient>(); if (d.id == id) running = d.running.valueOrDefault(false); }
            clients.push_back(Obj{}.str("name", p.name).boolean("running", running).done());
        }
        for (auto& [e, v] : w->visitors) if (v.guest->connected()) guests.push_back(quote(e));
        const dots::Transceiver* t = w->app && w->kind != "host" ? &w->app->transceiver() : nullptr;
        bool connected = t && static_cast<const dots::GuestTransceiver*>(t)->connected();
        return Obj{}.boolean("ok", ok).raw("ev", arr(w->ev)).raw("left", arr(w->left)).num("code", code).boolean("exc", exc).num("byes", w->byes)
            .raw("hcache", w->list(w->host.get())).raw("clients", arr(clients)).boolean("set", dots::global_transceiver_is_set()).boolean("connected", connected)
            .raw("cache", w->list(t)).raw("guestsS", arr(guests)).done();
    });
}
