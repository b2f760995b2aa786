// Drives the rule based authentication of a host (specs/Auth.tla): real host,
// real LegacyAuthManager, clients behind scripted channels.
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/HostTransceiver.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/io/auth/Digest.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;

// SHA-256, on its own, so that the format of the response is checked as well
struct Sha
{
    static std::string hash(const std::string& in)
    {
        static const uint32_t K[64] = {
            0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
            0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
            0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
            0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
        uint32_t h[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
        std::string m = in;
        uint64_t bits = uint64_t(in.size()) * 8;
        m += char(0x80);
        while (m.size() % 64 != 56) m += char(0);
        for (int i = 7; i >= 0; --i) m += char(bits >> (8 * i));
        auto rot = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
        for (size_t o = 0; o < m.size(); o += 64)
        {
            uint32_t w[64];
            for (int i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(m[o + 4 * i])) << 24 | uint8_t(m[o + 4 * i + 1]) << 16 | uint8_t(m[o + 4 * i + 2]) << 8 | uint8_t(m[o + 4 * i + 3]);
            for (int i = 16; i < 64; ++i)
                w[i] = w[i - 16] + (rot(w[i - 15], 7) ^ rot(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (rot(w[i - 2], 17) ^ rot(w[i - 2], 19) ^ w[i - 2] >> 10);
            uint32_t v[8];
            std::copy(h, h + 8, v);
            for (int i = 0; i < 64; ++i)
            {
                uint32_t t1 = v[7] + (rot(v[4], 6) ^ rot(v[4], 11) ^ rot(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
                uint32_t t2 = (rot(v[0], 2) ^ rot(v[0], 13) ^ rot(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for (int j = 7; j > 0; --j) v[j] = v[j - 1];
                v[4] += t1;
                v[0] = t1 + t2;
            }
            for (int i = 0; i < 8; ++i) h[i] += v[i];
        }
        std::string r;
        for (uint32_t x : h) for (int i = 3; i >= 0; --i) r += char(x >> (8 * i));
        return r;
    }
    static std::string hex(const std::string& s)
    {
        std::string o;
        char b[4];
        for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
        return o;
    }
};

static std::string respond(uint64_t nonce, const std::string& cnonce, const std::string& user, const std::string& secret)
{
    std::string n(reinterpret_cast<const char*>(&nonce), 8);
    return Sha::hex(Sha::hash(Sha::hash(user + "::" + secret) + ":" + n + ":" + cnonce));
}

struct World
{
    boost::asio::io_context io;
    std::unique_ptr<dots::HostTransceiver> host;
    ScriptListener* listener = nullptr;
    std::set<uint64_t> nonces;
    uint64_t lastNonce = 12345;
    int clients = 0;

    World()
    {
        host = std::make_unique<dots::HostTransceiver>("srv", io);
        host->setAuthManager<dots::io::LegacyAuthManager>();
        auto l = std::make_unique<ScriptListener>();
        listener = l.get();
        host->listen(std::move(l));
    }

    static std::string ip(const J& a)
    {
        std::string s;
        char b[8];
        if (a.Size() == 4)
            for (unsigned i = 0; i < 4; ++i) s += (i ? "." : "") + std::to_string(a[i].GetInt());
        else
            for (unsigned i = 0; i < 16; i += 2) { snprintf(b, sizeof b, "%s%x", i ? ":" : "", a[i].GetInt() * 256 + a[i + 1].GetInt()); s += b; }
        return s;
    }

    DotsAuthentication rule(const J& r)
    {
        return DotsAuthentication{ .nameSpace = "", .network = DotsNetwork{ .network = ip(r["net"]["a"]), .prefix = uint8_t(r["net"]["n"].GetInt()) },
                                   .clientName = r["name"].GetString(), .priority = uint16_t(r["prio"].GetInt()) };
    }

    std::string client(const J& c)
    {
        std::string scheme = c["scheme"].GetString(), a = ip(c["addr"]), name = c["name"].GetString(), resp = c["resp"].GetString();
        std::string uri = scheme == "uds" ? "uds:/run/x.socket" : scheme == "local" ? "local:/" : scheme + "://" + (c["addr"].Size() == 4 ? a : "[" + a + "]") + ":" + std::to_string(2000 + clients % 1000);
        ++clients;
        auto ch = dots::io::make_channel<ScriptChannel>(uri);
        listener->accept(ch);
        Obj o;
        auto* hello = ch->sent.empty() ? nullptr : ch->sent[0].instance->_as<DotsMsgHello>();
        if (hello == nullptr || ch->sent.size() != 1) return o.boolean("noHello", true).boolean("asked", false).boolean("acc", false).str("exception", "no hello").done();
        bool asked = hello->authenticationRequired == true;
        uint64_t nonce = hello->authChallenge.valueOrDefault(0);
        if (asked)
        {
            if (!nonces.insert(nonce).second || nonce == 0) o.str("exception", "challenge is not fresh");
        }
        DotsMsgConnect m{ .clientName = name, .preloadCache = false };
        std::string cn = resp == "bare" ? "" : "c" + std::to_string(clients);
        uint64_t n = resp == "stale" ? lastNonce : nonce;
        std::string secret = resp == "s2" ? "other" : resp == "wrong" ? "guess" : "secret";
        if (resp != "none")
        {
            m.cnonce = cn;
            m.authChallengeResponse = respond(n, cn, resp == "stolen" ? "mallory" : name, secret);
            if (resp == "swapped") m.cnonce = cn + "0";
            if (resp == "short") m.authChallengeResponse->resize(32);
            if (resp == "long") *m.authChallengeResponse += std::string(4096, 'a');
            if (resp == "nocnonce" || resp == "bare") m.cnonce.reset();
        }
        if (asked) lastNonce = nonce;
        DotsHeader h{ .typeName = "DotsMsgConnect" };
        h.attributes = m._validProperties();
        ch->sent.clear();
        ch->inject(h, m);
        bool acc = false, told = false;
        for (auto& s : ch->sent) if (auto* r = s.instance->_as<DotsMsgConnectResponse>()) { told = true; acc = r->accepted == true; }
        bool held = ch.use_count() > 1;
        if (held != acc) o.str("exception", "admitted although not accepted, or the other way round");
        if (!told && resp != "long") o.str("exception", "the client was not told");
        o.boolean("asked", asked).boolean("acc", acc && held);
        if (held)
        {
            DotsHeader eh{ .typeName = "DotsMsgError" };
            DotsMsgError bye{ .errorCode = 0 };
            eh.attributes = bye._validProperties();
            ch->inject(eh, bye);
        }
        return o.done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(); return "{}"; }
        if (op == "Client") return w->client(cmd);
        if (op == "Rule")
        {
            auto r = w->rule(cmd["rule"]);
            dots::property_set_t inc;
            for (auto& p : cmd["what"].GetArray())
            {
                if (std::string(p.GetString()) == "secret") { inc += DotsAuthentication::secret_p; if (int s = cmd["sec"].GetInt()) r.secret = s == 1 ? "secret" : "other"; }
                else { inc += DotsAuthentication::accept_p; if (std::string a = cmd["acc"].GetString(); a != "-") r.accept = a == "T"; }
            }
            w->host->publish(r, inc);
        }
        else if (op == "RemoveRule") w->host->remove(w->rule(cmd["rule"]));
        else if (op == "Policy")
        {
            DotsAuthenticationPolicy p{ .nameSpace = "" };
            std::string v = cmd["p"].GetString();
            if (v == "-") w->host->remove(p);
            else if (v == "N") w->host->publish(p, DotsAuthenticationPolicy::nameSpace_p + DotsAuthenticationPolicy::accept_p);
            else { p.accept = v == "T"; w->host->publish(p); }
        }
        else if (op == "Renew") w->host->setAuthManager<dots::io::LegacyAuthManager>();
        else throw std::runtime_error("harness: " + op);
        return "{\"n\":0}";
    });
}
