// Drives dots::tools::Uri and dots::io::Endpoint in step with specs/Endpoint.tla.
#include "common.h"
#include <optional>
#include <dots/asio.h>
#include <dots/io/Endpoint.h>
using namespace vt;
using dots::io::Endpoint;
using dots::tools::Uri;

struct World
{
    std::map<std::string, std::unique_ptr<Endpoint>> slots;
    World(const J& c) { for (auto& s : c["slots"].GetArray()) slots[s.GetString()] = nullptr; }

    static std::string show(const Endpoint* e)
    {
        if (e == nullptr) return Obj().boolean("has", false).done();
        return Obj().boolean("has", true).str("text", e->uriStr()).str("scheme", e->scheme()).str("authority", e->authority()).str("user", e->userName())
            .str("word", e->userPassword()).str("host", e->host()).str("port", e->port()).str("path", e->path()).done();
    }
    int n = 0;
    std::string step(const std::string& op, const J& c)
    {
        auto text = [&](const char* k) { return std::string{ c[k].GetString(), c[k].GetStringLength() }; };
        if (op == "List")
        {
            std::vector<std::string> ts;
            if (++n % 2) for (auto& e : Endpoint::FromStrings(text("text"))) ts.push_back(std::string{ e.uriStr() });
            else for (auto& e : Uri::FromStrings(text("text"))) ts.push_back(std::string{ e.uriStr() });
            return Obj().raw("texts", strs(ts)).done();
        }
        if (op == "Try")
        {
            try
            {
                Endpoint e{ text("text") };
                (void)show(&e);
                Endpoint f{ e };
                (void)show(&f);
            }
            catch (const std::exception&) {}
            return Obj().boolean("answered", true).done();
        }
        auto& x = slots.at(text("i"));
        bool ok = true;
        try
        {
            if (op == "Build") x = std::make_unique<Endpoint>(text("text"));
            else if (op == "BuildPort")
            {
                if (c["n"].GetBool()) x = std::make_unique<Endpoint>(text("s"), text("h"), uint16_t(std::stoi(text("p"))));
                else if (text("p").empty()) x = std::make_unique<Endpoint>(text("s") + "://" + (text("h").find(':') == std::string::npos ? text("h") : "[" + text("h") + "]"));
                else x = std::make_unique<Endpoint>(text("s"), text("h"), text("p"));
            }
            else if (op == "BuildPath") x = std::make_unique<Endpoint>(text("s"), text("path"));
            else if (op == "Socket")
            {
                dots::asio::ip::tcp::endpoint e{ dots::asio::ip::make_address(text("h")), uint16_t(std::stoi(text("p"))) };
                if (++n % 2) x = std::make_unique<Endpoint>("tcp", e);
                else x = std::make_unique<Endpoint>(e);
            }
            else if (op == "Copy") x = std::make_unique<Endpoint>(*slots.at(text("j")));
            else if (op == "Move") { auto& y = slots.at(text("j")); x = std::make_unique<Endpoint>(std::move(*y)); y = nullptr; }
            else if (op == "Assign") *x = *slots.at(text("j"));
            else if (op == "MoveAssign") { auto& y = slots.at(text("j")); *x = std::move(*y); y = nullptr; }
            else if (op == "Drop") x = nullptr;
            else if (op == "SetScheme") x->setScheme(text("v"));
            else if (op == "SetAuthority") x->setAuthority(text("v"));
            else if (op == "SetUser") x->setUserName(text("v"));
            else if (op == "SetWord") x->setUserPassword(text("v"));
            else if (op == "SetHost") x->setHost(text("v"));
            else if (op == "SetPort") x->setPort(text("v"));
            else if (op == "SetPath") x->setPath(text("v"));
            else throw std::logic_error("harness: " + op);
        }
        catch (const std::runtime_error&) { ok = false; }
        std::string all;
        Obj u;
        for (auto& [k, e] : slots) u.raw(k, show(e.get()));
        return Obj().boolean("ok", ok).raw("uris", u.done()).done();
    }
};

int main()
{
    std::unique_ptr<World> w;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(c); return "{}"; }
        return w->step(op, c);
    });
}
