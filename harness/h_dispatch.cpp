// Drives a dots::Dispatcher in lock step with specs/Dispatch.tla: a handler
// that is called answers and then takes its next command from the input.
#include "common.h"
#include <dots/Dispatcher.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;

struct Script : std::runtime_error { using runtime_error::runtime_error; };

struct World
{
    Family fam;
    std::function<bool(rapidjson::Document&)> next;
    std::function<void(const std::string&)> answer;
    int errs = 0, depth = 0;
    bool unwinding = false, resetting = false;
    std::map<std::string, std::vector<dots::Dispatcher::id_t>> ids; // newest last; pending while added
    dots::Dispatcher d{ [this](const dots::type::StructDescriptor&, std::exception_ptr e)
    {
        try { std::rethrow_exception(e); }
        catch (const Script&) { ++errs; }
        catch (...) { errs += 1000; }
    } };

    World(const J& c) : fam(c["family"].GetString(), c["dyn"].GetBool()) {}

    static bool raw(char c) { return c == 'r' || c == 'v'; }
    const dots::type::StructDescriptor& type(const std::string& h) { return fam.type(h[0] == 'e' || h[0] == 'r' ? 'C' : 'U'); }

    void say(const std::string& h, const char* w, bool fresh, int k, const std::string& mt, bool exc)
    {
        std::vector<std::string> present;
        for (const auto& [i, ci] : d.container(fam.type('C'))) present.push_back(std::to_string(fam.keyIndex(*i)));
        Obj at;
        at.str("h", h).str("w", w).num("d", depth).boolean("fresh", fresh).num("k", k).str("mt", mt);
        Obj o;
        o.raw("at", at.done()).num("errs", errs).boolean("exc", exc).raw("present", arr(present));
        errs = 0;
        answer(o.done());
    }

    // one frame: h was called
    template <typename Read>
    void frame(const std::string& h, const char* w, Read read)
    {
        if (unwinding) return;
        ++depth;
        struct Leave { int& d; ~Leave() { --d; } } leave{ depth };
        auto [k, mt] = read();
        say(h, w, true, k, mt, false);
        loop([&](bool exc)
        {
            auto [k2, mt2] = read(); // the event is still there after everything the handler did
            say(h, w, false, k2, mt2, exc);
        });
    }

    // commands until Return, Throw or the end; back() reports that control is here again
    template <typename Back>
    void loop(Back back)
    {
        rapidjson::Document cmd;
        while (!unwinding && next(cmd))
        {
            std::string op = cmd["op"].GetString();
            if (op == "reset") { unwinding = resetting = true; return; }
            if (op == "Return") return;
            if (op == "Throw") throw Script("handler");
            bool exc = false;
            try { perform(op, cmd); }
            catch (const Script&) { exc = true; }
            catch (const std::logic_error&) { exc = true; }
            if (unwinding) return;
            back(exc);
        }
        unwinding = true;
    }

    void perform(const std::string& op, const J& cmd)
    {
        if (op == "Publish")
        {
            auto i = fam.inst(cmd["t"].GetString()[0], cmd["k"].GetInt(), 1, 0);
            DotsHeader h{ .typeName = i->_descriptor().name(), .sentTime = dots::timepoint_t::Now(), .attributes = i->_validProperties(), .sender = 1 };
            if (cmd["rm"].GetBool()) { h.removeObj = true; h.attributes = i->_keyProperties(); }
            d.dispatch(dots::io::Transmission{ h, std::move(i) });
            return;
        }
        std::string h = cmd["h"].GetString();
        if (op == "Add")
        {
            dots::Dispatcher::id_t id;
            // the handler owns memory of its own, so that running a destroyed one is noticed
            auto own = std::make_shared<std::string>(h);
            if (raw(h[0]))
                id = d.addTransmissionHandler(type(h), [this, own, name = std::string(h + "                        ")](const dots::io::Transmission& t)
                {
                    frame(name.substr(0, 2), "raw", [&] { return std::make_pair(fam.keyIndex(*t.instance()), std::string("-")); });
                    if (name.substr(0, 2) != own->substr(0, 2)) abort();
                });
            else
                id = d.addEventHandler(type(h), [this, own, name = std::string(h + "                        ")](const dots::Event<>& e)
                {
                    frame(name.substr(0, 2), e.header().fromCache.isValid() ? "rep" : "ev", [&]
                    {
                        if (fam.keyIndex(e.updated()) != fam.keyIndex(e.transmitted())) abort();
                        (void)e.cloneInfo().lastOperation.isValid();
                        return std::make_pair(fam.keyIndex(e.updated()), std::string(e.mt() == DotsMt::create ? "create" : e.mt() == DotsMt::update ? "update" : "remove"));
                    });
                    if (name.substr(0, 2) != own->substr(0, 2)) abort();
                });
            ids[h].push_back(id);
        }
        else if (op == "Remove" || op == "RemoveUnknown")
        {
            dots::Dispatcher::id_t id = ids[h].empty() ? 987654 : ids[h].back();
            if (raw(h[0])) d.removeTransmissionHandler(type(h), id);
            else d.removeEventHandler(type(h), id);
        }
        else throw std::runtime_error("harness: " + op);
    }
};

int main()
{
    vt_touch();
    Io io;
    std::unique_ptr<World> w;
    rapidjson::Document cmd;
    bool have = io.next(cmd);
    while (have)
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); io.answer("{}"); have = io.next(cmd); continue; }
        if (op == "Bind")
        {
            w = std::make_unique<World>(cmd);
            w->next = [&](rapidjson::Document& d) { return io.next(d); };
            w->answer = [&](const std::string& s) { io.answer(s); };
            io.answer("{}");
            have = io.next(cmd);
            continue;
        }
        bool exc = false;
        try { w->perform(op, cmd); }
        catch (const Script&) { exc = true; }
        catch (const std::logic_error&) { exc = true; }
        if (w->unwinding)
        {
            // a reset arrived (or the input ended) in the middle of a dispatch
            bool resetting = w->resetting;
            w.reset();
            if (resetting) io.answer("{}");
        }
        else w->say("-", "idle", false, 0, "-", exc);
        have = io.next(cmd);
    }
    io.finish();
}
