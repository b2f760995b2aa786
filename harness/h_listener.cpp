// Drives a listener with plain sockets as clients (specs/Listener.tla).
#include "common.h"
#include "sockets.h"
#include <set>
#include <boost/asio/io_context.hpp>
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <dots_all.h>
#include <vt_all.h>
namespace asio = boost::asio;
using namespace dots::io;

static const char* REQUEST = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
                             "Sec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: dots-json\r\n\r\n";

struct Client
{
    int fd = -1;
    bool alive = false, requested = false, answered = false, introduced = false, hung = false;
    std::string in;
    size_t parsed = 0;
    int heard = 0;
    ~Client() { drop(true); }
    void drop(bool abort)
    {
        if (fd < 0) return;
        linger l{ 1, 0 };
        if (abort) setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close(fd);
        fd = -1;
        alive = false;
    }
};

struct World
{
    std::unique_ptr<asio::io_context> io = std::make_unique<asio::io_context>();
    std::string transport, path;
    int port = 0, fmt = 0;
    std::unique_ptr<Listener> listener;
    std::map<int, Client> clients;
    struct Served { channel_ptr_t ch; int c = 0; };
    std::vector<std::unique_ptr<Served>> served;
    bool decline = false, lost = false;
    std::vector<std::string> open, got, errs;

    World(const J& c) : transport(c["transport"].GetString())
    {
        fmt = transport.back() == '1' ? 1 : transport.back() == '2' ? 2 : 3;
        static int runs = 0;
        mkdir("build/run", 0777);
        path = "build/run/l" + std::to_string(getpid()) + "." + std::to_string(runs++ % 1000);
        unlink(path.c_str());
        if (transport == "tcp1") listener = std::make_unique<v1::TcpListener>(*io, "127.0.0.1", "0");
        if (transport == "tcp2") listener = std::make_unique<v2::TcpListener>(*io, "127.0.0.1", "0");
        if (transport == "ws") listener = std::make_unique<WebSocketListener>(*io, "127.0.0.1", "0");
        if (transport == "uds1") listener = std::make_unique<posix::v1::UdsListener>(*io, std::string_view{ path });
        if (transport == "uds2") listener = std::make_unique<posix::v2::UdsListener>(*io, std::string_view{ path });
        if (fmt == 3 || transport[0] == 't') port = listeningPort();
        accept();
    }
    ~World()
    {
        for (auto& s : served) s->ch = nullptr;
        listener = nullptr;
        io->restart();
        io->poll();
        clients.clear();
        unlink(path.c_str());
    }

    static int listeningPort()
    {
        for (int fd = 255; fd > 2; --fd)
        {
            int on = 0;
            socklen_t n = sizeof on;
            if (getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) != 0 || !on) continue;
            sockaddr_in a{};
            n = sizeof a;
            if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && a.sin_family == AF_INET) return ntohs(a.sin_port);
        }
        throw std::runtime_error("harness: no listening port");
    }

    void accept()
    {
        listener->asyncAccept([this](Listener&, channel_ptr_t ch)
        {
            serve(std::move(ch));
            return !std::exchange(decline, false);
        }, [this](Listener&, std::exception_ptr)
        {
            // a host forgets a listener that reports an error
            lost = true;
            listener = nullptr;
        });
    }

    void serve(channel_ptr_t ch)
    {
        served.push_back(std::make_unique<Served>());
        Served* s = served.back().get();
        s->ch = std::move(ch);
        s->ch->init(allTypes());
        s->ch->asyncReceive([this, s](Transmission t)
        {
            int n = -1;
            if (auto* one = t.instance()->_as<VtOne>()) n = *one->p;
            if (n > 0 && n < 100 && s->c == 0) { s->c = n; open.push_back(std::to_string(n)); }
            else got.push_back(n == 100 + s->c ? std::to_string(s->c) : "-1");
            return true;
        }, [this, s](std::exception_ptr)
        {
            if (s->c != 0) errs.push_back(std::to_string(s->c));
            s->ch = nullptr;
        });
    }

    std::string message(int n) const
    {
        VtOne one;
        one.p = n;
        DotsHeader h{ .typeName = "VtOne", .sentTime = dots::timepoint_t::Now(), .attributes = one._validProperties(), .sender = 1u };
        if (fmt == 2) { std::string b = cbor(h) + cbor(one); return frame2(b, b.size()); }
        if (fmt == 1)
        {
            std::string b = cbor(one);
            DotsTransportHeader th;
            th.destinationGroup = "VtOne";
            th.dotsHeader = h;
            th.payloadSize = uint32_t(b.size());
            return frame1(cbor(th), b);
        }
        return frameWs("[" + dots::to_json(h) + "," + dots::to_json(one) + "]", true);
    }

    static void put(Client& c, const std::string& s)
    {
        if (send(c.fd, s.data(), s.size(), MSG_NOSIGNAL) != ssize_t(s.size())) c.hung = true;
    }

    void connect(int n, const std::string& kind, bool& refused)
    {
        Client& c = clients[n];
        try { c.fd = transport[0] == 'u' ? connectUds(path) : connectTcp(port); }
        catch (const std::exception&) { refused = true; return; }
        c.alive = true;
        std::string req = REQUEST;
        if (fmt == 3)
        {
            if (kind == "good" || kind == "late") { put(c, req); c.requested = true; }
            else if (kind == "half") put(c, req.substr(0, req.size() / 2));
            else if (kind == "bad") put(c, "HELLO there, how are you?\r\n\r\n");
        }
        if (kind == "gone" || kind == "late") c.drop(false);
        if (kind == "reset") c.drop(true);
    }

    // reads what has come for a client; whether there was anything
    bool read(int n, Client& c)
    {
        if (!c.alive || c.hung) return false;
        char b[65536];
        int one = 1;
        if (port) setsockopt(c.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        ssize_t r = recv(c.fd, b, sizeof b, MSG_DONTWAIT);
        int error = errno;
        if (port) setsockopt(c.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        errno = error;
        if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) r = -2;
        if (r == 0 || r == -1) { c.hung = true; return true; }
        if (r > 0) c.in.append(b, size_t(r));
        bool any = r > 0;
        if (fmt == 3 && c.requested && !c.answered)
            if (auto e = c.in.find("\r\n\r\n"); e != std::string::npos)
            {
                c.answered = c.in.rfind("HTTP/1.1 101", 0) == 0;
                c.in.erase(0, e + 4);
            }
        if ((fmt != 3 || c.answered) && !c.introduced) { put(c, message(n)); c.introduced = any = true; }
        DotsHeader h;
        dots::type::AnyStruct a{ allTypes().getStructType("VtOne") };
        while (c.introduced && parse(fmt, c.in, c.parsed, h, a)) if (auto* one = a->_as<VtOne>(); one && *one->p == 7) ++c.heard;
        return any;
    }

    void run()
    {
        for (int quiet = 0; quiet < 4; ++quiet)
        {
            io->restart();
            if (io->poll() > 0) quiet = 0;
            for (auto& [n, c] : clients) if (read(n, c)) quiet = 0;
            if (quiet) usleep(200);
        }
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->open.clear(); w->got.clear(); w->errs.clear();
        for (auto& [n, c] : w->clients) { (void)n; c.heard = 0; }
        bool refused = false;
        int c = cmd.HasMember("c") ? cmd["c"].GetInt() : 0;
        if (op == "Connect") w->connect(c, cmd["kind"].GetString(), refused);
        else if (op == "Finish")
        {
            Client& cl = w->clients.at(c);
            std::string req = REQUEST;
            w->put(cl, cmd["half"].GetBool() ? req.substr(req.size() / 2) : req);
            cl.requested = true;
        }
        else if (op == "Leave") w->clients.at(c).drop(std::string(cmd["how"].GetString()) == "abort");
        else if (op == "Tell") w->put(w->clients.at(c), w->message(100 + c));
        else if (op == "Say")
        {
            VtOne one;
            one.p = 7;
            DotsHeader h{ .typeName = "VtOne", .sentTime = dots::timepoint_t::Now(), .attributes = one._validProperties(), .sender = 1u };
            Transmission t{ h, dots::type::AnyStruct{ one } };
            for (auto& s : w->served) if (s->ch && s->c) s->ch->transmit(t);
        }
        else if (op == "Stop") w->decline = true;
        else if (op == "Resume") w->accept();
        else if (op == "Destroy") { w->listener = nullptr; w->decline = false; }
        else if (op == "Run") w->run();
        else throw std::runtime_error("harness: " + op);
        std::vector<std::string> heard, hung;
        for (auto& [n, cl] : w->clients)
        {
            for (int i = 0; i < cl.heard; ++i) heard.push_back(std::to_string(n));
            if (cl.hung && op == "Run") hung.push_back(std::to_string(n));
        }
        return Obj{}.raw("servedS", arr(w->open)).raw("gotS", arr(w->got)).raw("heardS", arr(heard)).raw("errS", arr(w->errs)).raw("hungS", arr(hung)).boolean("refused", refused).boolean("lost", w->lost).done();
    });
}
