// Runs channels over byte streams for specs/Stream.tla: over a scripted stream
// that takes and gives exactly the bytes it is told to, and over real TCP, UDS
// and WebSocket connections whose other end is a plain socket.
#include "common.h"
#include "sockets.h"
#include <thread>
#include <boost/asio/any_completion_handler.hpp>
#include <boost/asio/io_context.hpp>
#include <dots/io/channels/AsyncStreamChannel.h>
#include <dots/io/channels/TcpListener.h>
#include <dots/io/channels/UdsListener.h>
#include <dots/io/channels/WebSocketListener.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
namespace asio = boost::asio;
namespace beast = boost::beast;
using dots::io::Channel;
using dots::io::TransmissionFormat;

// ----------------------------------------------------------- scripted stream
struct Wire
{
    using handler_t = asio::any_completion_handler<void(boost::system::error_code, size_t)>;
    asio::io_context& io;
    std::string written, readable;
    size_t quota = 0;
    bool eof = false, reset = false;
    asio::const_buffer wbuf;
    asio::mutable_buffer rbuf;
    handler_t wh, rh;

    void done(handler_t& h, boost::system::error_code ec, size_t n)
    {
        asio::post(io, [h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        h = nullptr;
    }
    bool pump()
    {
        bool any = false;
        if (wh && reset) { done(wh, asio::error::connection_reset, 0); any = true; }
        if (wh && quota > 0)
        {
            size_t n = std::min(quota, wbuf.size());
            written.append(static_cast<const char*>(wbuf.data()), n);
            quota -= n;
            done(wh, {}, n);
            any = true;
        }
        if (rh && !readable.empty())
        {
            size_t n = std::min(readable.size(), rbuf.size());
            memcpy(rbuf.data(), readable.data(), n);
            readable.erase(0, n);
            done(rh, {}, n);
            any = true;
        }
        else if (rh && (eof || reset))
        {
            done(rh, reset ? make_error_code(asio::error::connection_reset) : make_error_code(asio::error::eof), 0);
            any = true;
        }
        return any;
    }
    void abort()
    {
        if (wh) done(wh, asio::error::operation_aborted, 0);
        if (rh) done(rh, asio::error::operation_aborted, 0);
    }
};

struct ScriptStream
{
    using executor_type = asio::io_context::executor_type;
    std::shared_ptr<Wire> wire;
    explicit ScriptStream(std::shared_ptr<Wire> w) : wire(std::move(w)) {}
    ScriptStream(ScriptStream&&) = default;
    ~ScriptStream() { if (wire) wire->abort(); }
    executor_type get_executor() { return wire->io.get_executor(); }
    template <typename B, typename H> void async_read_some(const B& b, H&& h)
    {
        if (wire->rh) throw std::runtime_error("two reads at a time");
        wire->rbuf = *asio::buffer_sequence_begin(b);
        wire->rh = Wire::handler_t(std::forward<H>(h));
    }
    template <typename B, typename H> void async_write_some(const B& b, H&& h)
    {
        if (wire->wh) throw std::runtime_error("two writes at a time");
        wire->wbuf = *asio::buffer_sequence_begin(b);
        wire->wh = Wire::handler_t(std::forward<H>(h));
    }
};

using Mock1 = dots::io::AsyncStreamChannel<ScriptStream, CborSerializer, TransmissionFormat::v1>;
using Mock2 = dots::io::AsyncStreamChannel<ScriptStream, CborSerializer, TransmissionFormat::v2>;

// ------------------------------------------------------------------- messages
struct Msg { DotsHeader header; dots::type::AnyStruct inst; };
static size_t exactLen[2] = { 1900, 1900 }; // q of kind "e", per format

static Msg message(int n, const std::string& k, int fmt)
{
    auto& r = allTypes();
    bool keyed = k == "l" || k == "k";
    dots::type::AnyStruct a{ r.getStructType(keyed ? "VtStrC" : k == "x" ? "VtMixU" : "VtOne") };
    auto text = [&](size_t len)
    {
        static std::map<std::pair<int, size_t>, std::string> big;
        auto make = [&] { std::string s(len, 0); for (size_t i = 0; i < len; ++i) s[i] = char('a' + (i * 7 + n) % 26); return s; };
        if (len < 1000000) return make();
        auto& s = big[{ n, len }];
        if (s.empty()) s = make();
        return s;
    };
    DotsHeader h{ .typeName = a->_descriptor().name() };
    auto set = [&](const char* name, const std::string& v) { for (auto& pd : a->_descriptor().propertyDescriptors()) if (pd.name() == name) { dots::type::ProxyProperty<> p{ *a, pd }; p.emplace(); p.storage().to<std::string>() = v; } };
    if (keyed)
    {
        set("k", "key" + std::to_string(n));
        if (k == "l") set("p", text(5000));
        if (k == "k") h.removeObj = true;
    }
    else if (k == "x") a.to<VtMixU>().p = VtColor::blue;
    else
    {
        auto& one = a.to<VtOne>();
        one.p = n;
        if (k == "p") one.q = "withheld";
        if (k == "e") one.q = text(exactLen[fmt == 1 ? 0 : 1]);
        if (k == "h") one.q = text(200000);
        if (k == "H") one.q = text(3000000);
        if (k == "G") one.q = text(6000000);
    }
    h.attributes = k == "p" ? VtOne::p_p : a->_validProperties();
    h.sentTime = dots::timepoint_t{ dots::duration_t{ double(n) } };
    if (n % 2) h.sender = uint32_t(n);
    else h.sender = 1; // the old format fills a missing sender in
    if (k == "s") h.fromCache = uint32_t(n);
    return { std::move(h), std::move(a) };
}

static std::string text(const DotsHeader& h, const dots::type::Struct& s, dots::property_set_t set) { return instJson(h) + instJson(s, set); }
static bool isDescriptor(const DotsHeader& h) { return *h.typeName == "StructDescriptorData" || *h.typeName == "EnumDescriptorData"; }

// received or seen on the wire: its number and kind if it is what was sent
struct Known
{
    std::map<std::string, std::pair<int, std::string>> byText;
    std::set<std::pair<int, std::string>> added;
    void add(int n, const std::string& k, int fmt)
    {
        if (!added.insert({ n, k }).second) return;
        Msg m = message(n, k, fmt);
        byText[text(m.header, *m.inst, *m.header.attributes)] = { n, k };
    }
    std::string show(const DotsHeader& h, const dots::type::Struct& s)
    {
        auto it = byText.find(text(h, s, dots::property_set_t::All));
        if (it == byText.end()) return Obj{}.num("n", -1).str("k", "other: " + (instJson(h) + instJson(s)).substr(0, 200)).done();
        return Obj{}.num("n", it->second.first).str("k", it->second.second).done();
    }
};

// ------------------------------------------------------------------ the world
static asio::io_context* io;
static std::string transport;
static bool flip;
static int fmt;

struct End
{
    std::shared_ptr<Channel> ch;
    std::vector<std::string> got;
    int errs = 0;
    std::string arm = "no";
    bool stopped = false;
};

struct Link
{
    std::shared_ptr<Wire> ws, wr, wp;       // scripted: sender, receiver, probe
    std::unique_ptr<dots::type::Registry> rr;
    std::shared_ptr<Channel> probe;
    int fs = -1, fr = -1;                   // real: the other ends
    End s, r;
    std::string out;                        // what the sender has written so far
    std::vector<size_t> ends;               // where each message ends in it
    size_t base = 0, parsed = 0, descriptors = 0, wpieces = 0, rpieces = 0;
    std::vector<bool> garbage;
    bool gone = false, hangup = false;
    ~Link() { for (int f : { fs, fr }) if (f >= 0) { linger l{ 1, 0 }; setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(f); } }
};
static std::vector<std::unique_ptr<Link>> links;
static std::unique_ptr<dots::io::Listener> listener;
static std::shared_ptr<Channel> accepted;
static int rawListen = -1;
static std::string udsPath, rawPath;
static int port = 0, rawPort = 0;
static Known known;
static int counter = 0;
static auto cache = std::make_shared<std::pair<dots::io::Transmission::id_t, std::vector<uint8_t>>>(0, std::vector<uint8_t>{});

static bool mock() { return transport.rfind("mock", 0) == 0; }

static void settle()
{
    for (;;)
    {
        bool any = false;
        for (auto& l : links) for (auto& x : { l->ws, l->wr }) if (x) any |= x->pump();
        io->restart();
        any |= io->poll() > 0;
        if (!any) break;
    }
}

template <typename F> static void until(F f, int ms = 3000)
{
    settle();
    for (int i = 0; i < ms && !f(); ++i) { usleep(i < 20 ? 50 : 1000); settle(); }
    settle();
}

static void start(End& e, dots::type::Registry& r)
{
    e.ch->init(r);
    e.ch->asyncReceive([&e](dots::io::Transmission t)
    {
        if (isDescriptor(t.header())) return true;
        e.got.push_back(known.show(t.header(), *t.instance()));
        if (e.stopped) e.got.push_back("{\"n\":-2,\"k\":\"after the end\"}");
        if (e.arm == "throw") { e.arm = "no"; throw std::runtime_error("receive handler"); }
        if (e.arm == "no") return true;
        if (e.arm == "drop2") { e.arm = "drop"; return true; }
        e.stopped = true;
        if (e.arm == "drop") e.ch = nullptr;
        e.arm = "no";
        return false;
    }, [&e](std::exception_ptr)
    {
        ++e.errs;
        e.stopped = true;
        e.ch = nullptr;
    });
}

static int listeningPort()
{
    for (int fd = 3; fd < 256; ++fd)
    {
        int on = 0;
        socklen_t n = sizeof on;
        if (fd == rawListen || getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &n) != 0 || !on) continue;
        sockaddr_in a{};
        n = sizeof a;
        if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && a.sin_family == AF_INET) return ntohs(a.sin_port);
    }
    throw std::runtime_error("harness: no listening port");
}

// a channel the listener has accepted, and the plain socket at its other end
static std::shared_ptr<Channel> acceptedChannel(int& fd)
{
    accepted = nullptr;
    fd = transport.rfind("uds", 0) == 0 ? connectUds(udsPath) : connectTcp(port);
    if (transport == "ws")
    {
        std::string req = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
                          "Sec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: dots-json\r\n\r\n";
        if (send(fd, req.data(), req.size(), 0) != ssize_t(req.size())) throw std::runtime_error("harness: send");
    }
    until([] { return accepted != nullptr; });
    if (!accepted) throw std::runtime_error("harness: nothing accepted");
    if (transport == "ws") recvHead(fd);
    return std::move(accepted);
}

static std::shared_ptr<Channel> connectedChannel(int& fd)
{
    using namespace dots::io;
    std::shared_ptr<Channel> ch;
    std::string p = std::to_string(rawPort);
    if (transport == "tcp1") ch = make_channel<v1::TcpChannel>(*io, "127.0.0.1", p);
    else if (transport == "tcp2") ch = make_channel<v2::TcpChannel>(*io, "127.0.0.1", p);
    else if (transport == "uds1") ch = make_channel<posix::v1::UdsChannel>(*io, std::string_view{ rawPath });
    else if (transport == "uds2") ch = make_channel<posix::v2::UdsChannel>(*io, std::string_view{ rawPath });
    else
    {
        std::thread t([&]
        {
            int c = ::accept(rawListen, nullptr, nullptr);
            asio::io_context own;
            beast::websocket::stream<asio::ip::tcp::socket> s{ asio::ip::tcp::socket{ own, asio::ip::tcp::v4(), c } };
            s.set_option(beast::websocket::stream_base::decorator([](beast::websocket::response_type& res) { res.set(beast::http::field::sec_websocket_protocol, "dots-json"); }));
            s.accept();
            fd = s.next_layer().release();
        });
        ch = make_channel<WebSocketChannel>(*io, "127.0.0.1", p);
        t.join();
        return ch;
    }
    fd = ::accept(rawListen, nullptr, nullptr);
    int one = 1;
    if (transport[0] == 't') setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return ch;
}

template <typename M> static void scripted(Link& l)
{
    for (auto* w : { &l.ws, &l.wr, &l.wp }) *w = std::make_shared<Wire>(Wire{ *io });
    l.s.ch = dots::io::make_channel<M>(ScriptStream{ l.ws }, cache);
    l.r.ch = dots::io::make_channel<M>(ScriptStream{ l.wr }, nullptr);
    l.probe = dots::io::make_channel<M>(ScriptStream{ l.wp }, nullptr);
    l.probe->init(allTypes());
}

static void bind(const J& c)
{
    transport = c["transport"].GetString();
    flip = c.HasMember("flip") && c["flip"].GetBool();
    fmt = transport.back() == '1' ? 1 : transport.back() == '2' ? 2 : 3;
    if (!io) io = new asio::io_context;
    if (fmt != 3 && exactLen[fmt - 1] == 1900) // make the frame of kind "e" as long as the smallest read buffer
    {
        auto w = std::make_shared<Wire>(Wire{ *io });
        w->quota = 1 << 20;
        std::shared_ptr<Channel> ch;
        if (fmt == 1) ch = dots::io::make_channel<Mock1>(ScriptStream{ w }, nullptr); else ch = dots::io::make_channel<Mock2>(ScriptStream{ w }, nullptr);
        ch->init(allTypes());
        auto pump = [&] { while (w->pump()) { io->restart(); io->poll(); } };
        Msg s = message(1, "s", fmt), e = message(1, "e", fmt);
        ch->transmit(s.header, *s.inst);
        pump();
        w->written.clear();
        ch->transmit(e.header, *e.inst);
        pump();
        exactLen[fmt - 1] += 2048 - w->written.size();
    }
    if (mock() || listener) return;
    mkdir("build/run", 0777);
    udsPath = "build/run/s" + std::to_string(getpid());
    rawPath = udsPath + "r";
    unlink(udsPath.c_str());
    unlink(rawPath.c_str());
    using namespace dots::io;
    if (transport == "tcp1") listener = std::make_unique<v1::TcpListener>(*io, "127.0.0.1", "0");
    if (transport == "tcp2") listener = std::make_unique<v2::TcpListener>(*io, "127.0.0.1", "0");
    if (transport == "ws") listener = std::make_unique<WebSocketListener>(*io, "127.0.0.1", "0");
    if (transport == "uds1") listener = std::make_unique<posix::v1::UdsListener>(*io, std::string_view{ udsPath });
    if (transport == "uds2") listener = std::make_unique<posix::v2::UdsListener>(*io, std::string_view{ udsPath });
    if (transport[0] != 'u') port = listeningPort();
    listener->asyncAccept([](Listener&, channel_ptr_t ch) { accepted = std::move(ch); return true; }, [](Listener&, std::exception_ptr e) { (void)e; fprintf(stderr, "listener error\n"); });
    if (transport[0] == 'u')
    {
        rawListen = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a{};
        a.sun_family = AF_UNIX;
        strcpy(a.sun_path, rawPath.c_str());
        if (::bind(rawListen, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) throw std::runtime_error("harness: bind");
    }
    else
    {
        rawListen = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof a;
        if (::bind(rawListen, reinterpret_cast<sockaddr*>(&a), n) != 0) throw std::runtime_error("harness: bind");
        getsockname(rawListen, reinterpret_cast<sockaddr*>(&a), &n);
        rawPort = ntohs(a.sin_port);
    }
    listen(rawListen, 50);
}

// splits what has been written into messages
static void split(Link& l)
{
    DotsHeader h;
    dots::type::AnyStruct a{ allTypes().getStructType("VtOne") };
    while (parse(fmt, l.out, l.parsed, h, a)) if (isDescriptor(h)) ++l.descriptors; else { l.ends.push_back(l.parsed); l.garbage.push_back(false); }
}

static void drain(Link& l, size_t messages, size_t descriptors = 0)
{
    if (mock()) return;
    until([&]
    {
        char b[65536];
        ssize_t n;
        while (l.fs >= 0 && (l.ends.size() < messages || l.descriptors < descriptors) && (n = recv(l.fs, b, sizeof b, MSG_DONTWAIT)) > 0) { l.out.append(b, size_t(n)); split(l); }
        return l.ends.size() >= messages && l.descriptors >= descriptors;
    });
}

static void ensure(size_t n)
{
    while (links.size() < n)
    {
        links.push_back(std::make_unique<Link>());
        Link& l = *links.back();
        if (transport == "mock1") scripted<Mock1>(l);
        else if (transport == "mock2") scripted<Mock2>(l);
        else
        {
            l.s.ch = flip ? connectedChannel(l.fs) : acceptedChannel(l.fs);
            l.r.ch = flip ? acceptedChannel(l.fr) : connectedChannel(l.fr);
        }
        l.rr = std::make_unique<dots::type::Registry>(std::nullopt, dots::type::Registry::StaticTypePolicy::InternalOnly);
        start(l.s, allTypes());
        start(l.r, *l.rr);
        // the types are described first
        for (const char* t : { "VtOne", "VtStrC" }) for (auto* ch : { &l.s.ch, &l.probe }) if (*ch) (*ch)->transmit(allTypes().getStructType(t));
        if (mock())
        {
            l.ws->quota = l.wp->quota = size_t(1) << 20;
            do { io->restart(); io->poll(); } while (l.wp->pump());
            settle();
            l.out = l.ws->written;
            l.ws->written.clear();
            l.wr->readable = l.out;
            l.ws->quota = 0;
            split(l);
        }
        else
        {
            drain(l, 0, 2);
            if (send(l.fr, l.out.data(), l.out.size(), MSG_NOSIGNAL) != ssize_t(l.out.size())) throw std::runtime_error("harness: send");
        }
        if (l.descriptors != 2) throw std::runtime_error("harness: no descriptors");
        l.base = l.out.size();
        until([&] { return l.rr->findStructType("VtStrC") != nullptr; });
    }
}

static size_t offset(const Link& l, size_t pieces, size_t pn)
{
    if (pieces == 0) return l.base;
    size_t i = pieces / pn, part = pieces % pn;
    size_t b = i == 0 ? l.base : l.ends.at(i - 1);
    if (part == 0) return b;
    size_t len = l.ends.at(i) - b, cut = 0;
    if (pn == 2) cut = len / 2;
    else if (pn == 3) cut = part == 1 ? 3 : len - 1;
    else cut = part == 1 ? 1 : part == 2 ? (fmt == 2 ? 5 : 2) : part == 3 ? len / 2 : len - 1;
    return b + std::min(cut, len - 1);
}

static std::string garbageBytes(const std::string& g)
{
    Msg m = message(7, "s", fmt);
    if (g == "notype") m.header.typeName.reset();
    if (g == "type") m.header.typeName = "NoSuchType";
    if (fmt == 3)
    {
        auto json = [](const dots::type::Struct& s) { dots::serialization::JsonSerializer js; js.serialize(s); return js.output(); };
        std::string body = "[" + json(m.header) + "," + json(*m.inst) + "]";
        if (g == "bytes") body = std::string(20, '{');
        if (g == "short") body = body.substr(0, body.size() / 2);
        if (g == "value") body = "[" + json(m.header) + ",{\"p\":\"text\"}]";
        if (g == "frame") return frameWs(body, flip, 5); // reserved opcode
        if (g == "close") return frameWs("\x03\xe8", flip, 8);
        return frameWs(body, flip);
    }
    std::string inst = cbor(*m.inst);
    if (g == "value") inst = std::string("\xa1\x01\x61", 3) + "x"; // a text where a number belongs
    if (g == "bytes") inst = std::string(40, '\xff');
    if (fmt == 2)
    {
        std::string body = cbor(m.header) + inst;
        if (g == "bytes") body = inst;
        if (g == "size") return std::string("GET / HTTP/1.1\r\nHost: nobody\r\n\r\n");
        if (g == "short") return frame2(body.substr(0, 3), 3);
        return frame2(body, body.size());
    }
    DotsTransportHeader th;
    if (g != "nohdr") th.dotsHeader = m.header;
    if (g != "nosize") th.payloadSize = uint32_t(inst.size());
    if (g == "size") return frame1(std::string(20, '\xff'), "");
    if (g == "short") { th.payloadSize = 1u; inst.resize(1); }
    return frame1(cbor(th), inst);
}

int main()
{
    VtStrC::_Descriptor(); VtOne::_Descriptor(); VtSub::_Descriptor(); VtMixU::_Descriptor();
    return vt::run([](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset")
        {
            links.clear();
            counter = 0;
            if (io) settle();
            return "{}";
        }
        if (op == "Bind")
        {
            bind(c);
            ensure(c["links"].GetUint());
            settle();
            return "{}";
        }
        std::vector<std::string> wire(links.size(), "[]"), refused;
        Link* l = c.HasMember("l") ? links.at(c["l"].GetUint() - 1).get() : nullptr;
        if (op == "Send")
        {
            std::string k = c["k"].GetString();
            int n = ++counter;
            known.add(n, k, fmt);
            Msg m = message(n, k, fmt);
            dots::io::Transmission t{ m.header, dots::type::AnyStruct{ *m.inst } };
            for (auto& x : c["toS"].GetArray())
            {
                Link& y = *links.at(x.GetUint() - 1);
                try
                {
                    if (std::string(c["how"].GetString()) == "shared" && k != "x") y.s.ch->transmit(t); else y.s.ch->transmit(m.header, *m.inst);
                }
                catch (const std::exception&)
                {
                    refused.push_back(std::to_string(x.GetUint()));
                    continue;
                }
                if (!mock()) continue;
                y.wp->quota = size_t(1) << 30;
                size_t before = y.wp->written.size();
                y.probe->transmit(m.header, *m.inst);
                do { io->restart(); io->poll(); } while (y.wp->pump());
                y.ends.push_back((y.ends.empty() ? y.base : y.ends.back()) + y.wp->written.size() - before);
                y.garbage.push_back(false);
            }
            settle();
        }
        else if (op == "Write")
        {
            size_t pn = c["pn"].GetUint(), np = l->wpieces + c["n"].GetUint();
            size_t before = l->wpieces / pn;
            drain(*l, (np + pn - 1) / pn);
            if (mock())
            {
                l->ws->quota = offset(*l, np, pn) - offset(*l, l->wpieces, pn);
                settle();
                if (l->ws->quota > 0) return Obj{}.str("exception", "the channel does not write all it was given: " + std::to_string(l->ws->written.size()) + " written, " + std::to_string(l->ws->quota) + " more due").done();
                l->out += l->ws->written;
                l->ws->written.clear();
            }
            l->wpieces = np;
            // decode what has now left completely
            std::vector<std::string> w;
            for (size_t i = before; i < np / pn; ++i)
            {
                if (l->garbage.at(i)) continue;
                size_t pos = i == 0 ? l->base : l->ends.at(i - 1), end = l->ends.at(i);
                std::string s = l->out.substr(0, end);
                DotsHeader h;
                dots::type::AnyStruct a{ allTypes().getStructType("VtOne") };
                while (pos < end)
                {
                    if (!parse(fmt, s, pos, h, a)) throw std::runtime_error("wire: a message is cut short");
                    if (!isDescriptor(h)) w.push_back(known.show(h, *a));
                }
            }
            for (size_t i = 0; i < links.size(); ++i) if (links[i].get() == l) wire[i] = arr(w);
        }
        else if (op == "Read")
        {
            size_t pn = c["pn"].GetUint(), np = l->rpieces + c["n"].GetUint();
            size_t a = offset(*l, l->rpieces, pn), b = offset(*l, np, pn);
            size_t due = 0;
            bool bad = false;
            for (size_t i = l->rpieces / pn; i < np / pn; ++i) { ++due; bad |= l->garbage.at(i); }
            std::string bytes = l->out.substr(a, b - a);
            l->rpieces = np;
            if (mock()) { if (!l->r.stopped) l->wr->readable += bytes; settle(); }
            else
            {
                for (size_t done = 0; done < bytes.size();)
                {
                    ssize_t n = send(l->fr, bytes.data() + done, bytes.size() - done, MSG_DONTWAIT | MSG_NOSIGNAL);
                    if (n > 0) done += size_t(n);
                    else if (errno != EAGAIN) break;
                    settle();
                }
                bool live = !l->r.stopped;
                if (l->hangup && bad) shutdown(l->fr, SHUT_WR);
                until([&] { return !live || l->r.stopped || l->r.got.size() + size_t(l->r.errs) >= due; });
            }
        }
        else if (op == "Inject")
        {
            std::string b = garbageBytes(c["g"].GetString());
            l->hangup = fmt == 3 && (std::string(c["g"].GetString()) == "frame" || std::string(c["g"].GetString()) == "close"); // the closing handshake ends with the connection
            l->out += b;
            l->ends.push_back(l->out.size());
            l->parsed = l->out.size();
            l->garbage.push_back(true);
            ++counter;
            l->wpieces = l->ends.size() * (c["pn"].GetUint());
        }
        else if (op == "Arm") l->r.arm = c["a"].GetString();
        else if (op == "CutR")
        {
            std::string how = c["how"].GetString();
            if (mock()) { (how == "eof" ? l->wr->eof : l->wr->reset) = true; settle(); }
            else
            {
                if (how == "reset") { linger x{ 1, 0 }; setsockopt(l->fr, SOL_SOCKET, SO_LINGER, &x, sizeof x); }
                close(l->fr);
                l->fr = -1;
                until([&] { return l->r.errs > 0; });
            }
        }
        else if (op == "CutS")
        {
            std::string how = c["how"].GetString();
            bool live = l->s.ch != nullptr;
            l->gone = true;
            if (mock()) { l->ws->eof = true; l->ws->reset = how == "reset"; settle(); }
            else
            {
                if (how == "reset") { linger x{ 1, 0 }; setsockopt(l->fs, SOL_SOCKET, SO_LINGER, &x, sizeof x); }
                close(l->fs);
                l->fs = -1;
                until([&] { return !live || l->s.errs > 0; });
            }
        }
        else if (op == "Release") { l->s.ch = nullptr; settle(); }
        else throw std::runtime_error("harness: " + op);

        std::vector<std::string> got, rerr, serr, pend;
        for (auto& x : links)
        {
            if (!x->s.got.empty()) x->r.got.push_back("\"received by the sender\"");
            got.push_back(arr(x->r.got));
            rerr.push_back(std::to_string(x->r.errs));
            serr.push_back(std::to_string(x->s.errs));
            x->r.got.clear();
            x->r.errs = x->s.errs = 0;
            pend.push_back(mock() && !x->gone && x->ws->wh ? "true" : "false");
        }
        Obj o;
        o.raw("got", arr(got)).raw("rerr", arr(rerr)).raw("serr", arr(serr)).raw("wire", arr(wire));
        if (mock()) o.raw("pend", arr(pend));
        if (op == "Send") o.raw("refusedS", arr(refused));
        return o.done();
    });
}
