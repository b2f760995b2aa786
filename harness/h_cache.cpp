// Drives a dots::Dispatcher with its containers (specs/Cache.tla).
#include "common.h"
#include <dots/Dispatcher.h>
#include <dots/io/DescriptorConverter.h>
#include <dots_all.h>
#include <vt_all.h>
#include "family.h"
using namespace vt;

struct World
{
    Family fam;
    bool typed;
    std::vector<std::string> handlers, cached;
    std::string errors;
    dots::Dispatcher d{ [this](const dots::type::StructDescriptor&, std::exception_ptr) { ++failures; } };
    int failures = 0;
    std::map<std::string, dots::Dispatcher::id_t> ids;
    std::map<std::string, std::vector<std::string>> ev;

    World(const J& c) : fam(c["family"].GetString(), c["dyn"].GetBool()), typed(c["typed"].GetBool())
    {
        for (auto& h : c["handlers"].GetArray()) handlers.push_back(h.GetString());
        for (auto& h : c["types"].GetArray()) cached.push_back(h.GetString());
    }

    std::string clone(const DotsCloneInformation& c)
    {
        Obj o;
        o.str("op", !c.lastOperation.isValid() ? "-" : *c.lastOperation == DotsMt::create ? "create" : *c.lastOperation == DotsMt::update ? "update" : "remove");
        o.num("by", c.createdFrom.isValid() ? *c.createdFrom : 0).num("at", time(c.created));
        o.num("from", c.lastUpdateFrom.isValid() ? *c.lastUpdateFrom : 0).num("mod", time(c.modified));
        if (!c.localUpdateTime.isValid()) o.boolean("nolocal", true);
        return o.done();
    }
    template <typename P>
    static long long time(const P& p) { return p.isValid() ? (long long)(p->duration().toFractionalSeconds() / 1000) : 0; }

    template <typename E>
    void onEvent(const std::string& h, const E& e)
    {
        const dots::Event<>& b = e;
        const DotsHeader& hd = b.header();
        Obj o;
        o.str("mt", b.mt() == DotsMt::create ? "create" : b.mt() == DotsMt::update ? "update" : "remove");
        if (b.isCreate() + b.isUpdate() + b.isRemove() != 1 || (b.isCreate() && b.mt() != DotsMt::create) || (b.isUpdate() && b.mt() != DotsMt::update)) o.boolean("badmt", true);
        if (&b.updated() != &b()) o.boolean("badcall", true);
        if (hd.typeName != b.descriptor().name()) o.boolean("badname", true);
        o.raw("tx", fam.abst(b.transmitted())).raw("up", fam.abst(b.updated())).raw("clone", clone(b.cloneInfo()));
        o.raw("attrS", fam.propNames(b.newProperties()));
        o.boolean("rm", hd.removeObj == true).num("snd", hd.sender.isValid() ? *hd.sender : 0).num("sent", time(hd.sentTime));
        o.num("fc", hd.fromCache.isValid() ? (long long)*hd.fromCache : -1).raw("updS", fam.propNames(b.updatedProperties())).boolean("mine", b.isFromMyself());
        ev[h].push_back(o.done());
    }

    void sub(const std::string& h)
    {
        const auto& desc = fam.type(h[0] == 'd' ? 'D' : h == "u1" || h == "tu" ? 'U' : 'C');
        if (h[0] == 't')
        {
            ids[h] = d.addTransmissionHandler(desc, [this, h](const dots::io::Transmission& t)
            {
                Obj o;
                const DotsHeader& hd = t.header();
                o.raw("tx", fam.abst(*t.instance())).raw("attrS", fam.propNames(*hd.attributes)).boolean("rm", hd.removeObj == true);
                o.num("snd", hd.sender.isValid() ? *hd.sender : 0).num("sent", time(hd.sentTime));
                ev[h].push_back(o.done());
            });
        }
        else if (typed && h == "e1") ids[h] = d.addEventHandler<VtIntC>([this, h](const dots::Event<VtIntC>& e)
        {
            if (e.updated().k != static_cast<const VtIntC&>(e.dots::Event<>::updated()).k) throw std::runtime_error("typed event");
            onEvent(h, e);
        });
        else ids[h] = d.addEventHandler(desc, [this, h](const dots::Event<>& e) { onEvent(h, e); });
    }

    void unsub(const std::string& h)
    {
        const auto& desc = fam.type(h[0] == 'd' ? 'D' : h == "u1" || h == "tu" ? 'U' : 'C');
        if (h[0] == 't') d.removeTransmissionHandler(desc, ids[h]);
        else d.removeEventHandler(desc, ids[h]);
        ids.erase(h);
    }

    std::string observe(bool exc)
    {
        Obj o, oe, oc, ol, os, of;
        for (auto& h : handlers) { oe.raw(h, arr(ev[h])); }
        for (const std::string& k : cached)
        {
            char t = k[0];
            const dots::Container<>& c = d.container(fam.type(t));
            std::vector<std::string> es, cs, fs;
            size_t n = 0;
            for (const auto& [i, ci] : c)
            {
                es.push_back(Obj{}.raw("v", fam.abst(*i)).done());
                cs.push_back(clone(ci));
                ++n;
            }
            size_t n2 = 0;
            c.forEach([&](const dots::type::Struct&) { ++n2; });
            size_t n3 = 0;
            c.forEachClone([&](const auto&) { ++n3; });
            bool bad = n != n2 || n != n3 || c.empty() != (n == 0) || d.pool().find(fam.type(t)) != &c || d.pool().find(fam.type(t).name()) != &c;
            for (int i = 1; i <= 6; ++i)
            {
                auto probe = fam.inst(t, i, 0, 0);
                const auto* f = c.find(*probe);
                const auto* cl = c.findClone(*probe);
                bool got = true;
                try { if (&c.get(*probe) != f || &c.getClone(*probe) != cl) bad = true; } catch (const std::logic_error&) { got = false; }
                if ((f != nullptr) != (cl != nullptr) || got != (f != nullptr)) bad = true;
                if (f) fs.push_back(std::to_string(fam.keyIndex(*f)));
                if (typed && t == 'C')
                {
                    const auto& tc = d.container<VtIntC>();
                    if (tc.find(static_cast<const VtIntC&>(*probe)) != f) bad = true;
                }
            }
            oc.raw(k, arr(es)); ol.raw(k, arr(cs)); os.num(k, bad ? -1 : (long long)c.size()); of.raw(k, arr(fs));
        }
        o.raw("ev", oe.done()).boolean("exc", exc || failures).raw("cache", oc.done()).raw("clone", ol.done()).raw("size", os.done()).raw("found", of.done());
        failures = 0;
        return o.done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->ev.clear();
        bool exc = false;
        try
        {
            if (op == "Sub") w->sub(cmd["h"].GetString());
            else if (op == "Unsub") w->unsub(cmd["h"].GetString());
            else if (op == "Put")
            {
                const J& v = cmd["v"];
                auto i = w->fam.inst(cmd["t"].GetString()[0], v["k"].GetInt(), v["p"].GetInt(), v["q"].GetInt());
                DotsHeader h{ .typeName = i->_descriptor().name() };
                h.attributes = w->fam.props(i->_descriptor(), cmd["inc"]);
                if (cmd["snd"].GetInt()) h.sender = cmd["snd"].GetInt();
                if (cmd["sent"].GetInt()) h.sentTime = dots::timepoint_t{ dots::duration_t{ cmd["sent"].GetInt() * 1000.0 + 0.5 } };
                if (cmd["rm"].GetBool()) h.removeObj = true;
                w->d.dispatch(dots::io::Transmission{ h, std::move(i) });
            }
        }
        catch (const std::logic_error& e) { exc = true; }
        return w->observe(exc);
    });
}
