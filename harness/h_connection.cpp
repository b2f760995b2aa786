// Drives one dots::Connection (host or guest role) against a scripted channel.
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/Connection.h>
#include <dots/HostTransceiver.h>
#include <dots/io/auth/Digest.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;

static boost::asio::io_context& ioContext() { static boost::asio::io_context c; return c; }

struct StubAuth : dots::io::AuthManager
{
    bool challenge;
    StubAuth(dots::HostTransceiver& h, bool challenge) : AuthManager(h), challenge(challenge) {}
    std::optional<dots::io::Nonce> requiresAuthentication(const dots::io::Endpoint&, std::string_view) override
    {
        return challenge ? std::optional<dots::io::Nonce>(dots::io::Nonce{ 0x1122334455667788ull }) : std::nullopt;
    }
    bool verifyAuthentication(const dots::io::Endpoint& e, std::string_view g, dots::io::Nonce n, dots::io::Nonce c, const dots::io::Digest& d) override
    {
        return verifyAuthentication(e, g, n, c.toString(), d);
    }
    bool verifyAuthentication(const dots::io::Endpoint&, std::string_view g, dots::io::Nonce n, std::string_view c, const dots::io::Digest& d) override
    {
        if (!challenge) return g != "refused";
        return dots::io::Digest{ n, c, g, "secret" }.value() == d.value();
    }
};

struct Conn
{
    dots::type::Registry registry{ std::nullopt, dots::type::Registry::StaticTypePolicy::All };
    dots::HostTransceiver host{ "unused", ioContext(), dots::type::Registry::StaticTypePolicy::All };
    std::unique_ptr<StubAuth> auth;
    std::shared_ptr<ScriptChannel> channel = dots::io::make_channel<ScriptChannel>();
    bool channelGone = false;
    std::unique_ptr<dots::Connection> conn;
    bool isHost = false;
    std::vector<std::string> trans, rx;
    std::string hmode = "ok", tmode = "ok", nonce, cnonce;
    DotsHeader lastIn;

    std::string id(uint32_t v)
    {
        if (v == 0) return quote("none");
        if (v == 1) return quote("host");
        if (isHost) return quote(conn && v == conn->peerId() ? "peer" : "other");
        return quote(v == 77 ? "mine" : "other");
    }

    void start()
    {
        conn->asyncReceive(registry, auth.get(), isHost ? "srv" : "cli",
            [this](dots::Connection& c, dots::io::Transmission t) -> bool
            {
                const DotsHeader& h = t.header();
                Obj o;
                o.str("t", t.instance()->_descriptor().name());
                o.raw("v", instJson(*t.instance()));
                o.raw("sender", h.sender.isValid() ? id(*h.sender) : quote("absent"));
                o.boolean("mine", h.isFromMyself == true);
                o.str("sent", !h.sentTime.isValid() ? "absent" : lastIn.sentTime.isValid() && *lastIn.sentTime == *h.sentTime ? "kept" : std::abs((dots::timepoint_t::Now() - *h.sentTime).count()) < 60 ? "now" : "other");
                o.boolean("stamped", h.serverSentTime.isValid() && (!lastIn.serverSentTime.isValid() || *h.serverSentTime != *lastIn.serverSentTime));
                o.boolean("rm", h.removeObj == true);
                rx.push_back(o.done());
                if (hmode == "throw") throw std::runtime_error("receive handler failure");
                return hmode != "stop";
            },
            [this](dots::Connection& c, std::exception_ptr e)
            {
                std::string s = dots::to_string(c.state());
                trans.push_back(Obj{}.str("s", s).boolean("err", e != nullptr).done());
                if (tmode == s) throw std::runtime_error("transition handler failure");
            });
    }

    std::string sentJson(const Sent& s)
    {
        Obj o;
        const auto& i = *s.instance;
        std::string t = i._descriptor().name();
        o.str("t", t);
        if (auto* m = i._as<DotsMsgHello>())
        {
            o.boolean("sn", m->serverName == "srv").str("ch", !m->authChallenge.isValid() ? "-" : *m->authChallenge == 0 ? "zero" : *m->authChallenge == 0x1122334455667788ull ? "nonce" : "other");
            o.boolean("ar", m->authenticationRequired == true);
        }
        else if (auto* m = i._as<DotsMsgConnect>())
        {
            o.boolean("cn", m->clientName == "cli").boolean("pc", m->preloadCache == true).boolean("pf", m->preloadClientFinished == true);
            bool good = m->authChallengeResponse.isValid() && m->cnonce.isValid() && dots::io::Digest{ dots::io::Nonce{ 0x1122334455667788ull }, *m->cnonce, "cli", "secret" }.toString() == *m->authChallengeResponse;
            o.str("resp", !m->authChallengeResponse.isValid() ? "-" : good ? "good" : "bad");
        }
        else if (auto* m = i._as<DotsMsgConnectResponse>())
        {
            o.raw("id", m->clientId.isValid() ? id(*m->clientId) : quote("none"));
            o.str("acc", !m->accepted.isValid() ? "-" : *m->accepted ? "T" : "F").str("pre", !m->preload.isValid() ? "-" : *m->preload ? "T" : "F");
            o.boolean("fin", m->preloadFinished == true);
        }
        else if (auto* m = i._as<DotsMsgError>())
        {
            o.str("code", !m->errorCode.isValid() ? "-" : *m->errorCode == 0 ? "zero" : "nonzero").boolean("text", m->errorText.isValid() && !m->errorText->empty());
        }
        else o.raw("v", instJson(i));
        return o.done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<Conn> c;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset")
        {
            if (c && c->conn) c->conn.reset();
            c.reset();
            return "{}";
        }
        if (op == "New")
        {
            c = std::make_unique<Conn>();
            c->isHost = std::string(cmd["role"].GetString()) == "host";
            std::string a = cmd["auth"].GetString();
            if (c->isHost && a != "none") c->auth = std::make_unique<StubAuth>(c->host, a == "challenge");
            c->channel->onDestroy = [p = c.get()] { p->channelGone = true; };
            c->conn = std::make_unique<dots::Connection>(c->channel, c->isHost, !c->isHost && a == "secret" ? std::optional<std::string>("secret") : std::nullopt);
        }
        bool exc = false;
        c->trans.clear();
        c->rx.clear();
        c->hmode = cmd.HasMember("h") ? cmd["h"].GetString() : "ok";
        c->tmode = cmd.HasMember("tm") ? cmd["tm"].GetString() : "ok";
        int before = c->channel ? c->channel->receiving : 0;
        if (c->channel) c->channel->sent.clear();
        std::vector<Sent> sent;
        try
        {
            if (op == "Start") c->start();
            else if (op == "Break") c->channel->broken = true;
            else if (op == "LocalError") c->conn->handleError(std::make_exception_ptr(std::runtime_error("local failure")));
            else if (op == "ChannelError") c->channel->fail("channel failure");
            else if (op == "Destroy")
            {
                // the connection must not keep its channel alive
                std::vector<Sent>* s = &sent;
                c->channel->onSent = [s](const Sent& x) { s->push_back(x); };
                c->channel.reset();
                c->conn.reset();
            }
            else if (op == "Rx")
            {
                const J& m = cmd["m"];
                std::string t = m["t"].GetString();
                auto tri = [&](const char* k, auto& p) { std::string v = m[k].GetString(); if (v != "-") p = (v == "T"); };
                DotsHeader h{ .typeName = t };
                h.attributes = dots::property_set_t::All;
                if (t == "DotsMsgHello")
                {
                    DotsMsgHello i;
                    if (m["sn"].GetBool()) i.serverName = "srv";
                    if (m["ch"].GetBool()) i.authChallenge = 0x1122334455667788ull;
                    tri("ar", i.authenticationRequired);
                    c->channel->inject(h, i);
                }
                else if (t == "DotsMsgConnect")
                {
                    DotsMsgConnect i;
                    std::string cn = m["cn"].GetString(), r = m["resp"].GetString();
                    if (cn != "-") i.clientName = cn;
                    tri("pc", i.preloadCache);
                    tri("pf", i.preloadClientFinished);
                    if (r != "-")
                    {
                        i.cnonce = "abcd";
                        i.authChallengeResponse = dots::io::Digest{ dots::io::Nonce{ 0x1122334455667788ull }, "abcd", cn, r == "good" ? "secret" : "wrong" }.toString();
                    }
                    c->channel->inject(h, i);
                }
                else if (t == "DotsMsgConnectResponse")
                {
                    DotsMsgConnectResponse i;
                    if (m["id"].GetBool()) i.clientId = 77;
                    tri("acc", i.accepted);
                    tri("pre", i.preload);
                    tri("fin", i.preloadFinished);
                    c->channel->inject(h, i);
                }
                else if (t == "DotsMsgError")
                {
                    DotsMsgError i;
                    std::string code = m["code"].GetString();
                    if (code != "-") i.errorCode = code == "zero" ? 0 : 5;
                    if (m["text"].GetBool()) i.errorText = "peer failure";
                    c->channel->inject(h, i);
                }
                else
                {
                    dots::type::AnyStruct i = make(t, m["v"]);
                    h.attributes = i->_validProperties();
                    std::string s = m["sender"].GetString(), sent = m["sent"].GetString();
                    if (s != "absent") h.sender = s == "host" ? 1 : s == "peer" ? (c->isHost ? c->conn->peerId() : 1) : s == "mine" ? (c->isHost ? 1 : 77) : 4242;
                    if (sent == "future") h.sentTime = dots::timepoint_t{ dots::duration_t{ 9999999999.5 } };
                    if (sent == "past") h.sentTime = dots::timepoint_t{ dots::duration_t{ 1234.5 } };
                    if (m["sst"].GetBool()) h.serverSentTime = dots::timepoint_t{ dots::duration_t{ 99.0 } };
                    if (m["rm"].GetBool()) h.removeObj = true;
                    std::string mine = m["mine"].GetString();
                    if (mine != "-") h.isFromMyself = mine == "T";
                    c->lastIn = h;
                    c->channel->inject(h, std::move(i));
                }
            }
        }
        catch (const std::exception& e) { if (std::string(e.what()).rfind("harness:", 0) == 0) throw; exc = true; }
        Obj o;
        std::vector<std::string> tx;
        for (auto& s : c->channel ? c->channel->sent : sent) tx.push_back(c->sentJson(s));
        o.raw("tx", arr(tx)).raw("trans", arr(c->trans)).raw("rx", arr(c->rx)).boolean("exc", exc);
        if (c->channel) o.boolean("armed", c->channel->receiving > before);
        if (c->conn)
        {
            o.str("st", dots::to_string(c->conn->state())).raw("self", c->id(c->conn->selfId())).str("pn", c->conn->peerName());
            o.boolean("conn", c->conn->connected()).boolean("closed", c->conn->closed());
        }
        else o.boolean("released", c->channelGone);
        return o.done();
    });
}
