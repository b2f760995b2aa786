// Drives timers on a clock that stands still unless told otherwise (specs/Timers.tla).
#include "common.h"
#include "clock.h"
#undef DOTS_NO_GLOBAL_TRANSCEIVER
#include <dots/dots.h>
#include <dots/io/Io.h>
using namespace vt;

struct World
{
    std::string api;
    int victim, labels;
    std::unique_ptr<boost::asio::io_context> own; // timers that nobody manages end with their context
    boost::asio::io_context& io;
    std::map<int, std::optional<dots::Timer>> objects; // slot
    std::map<int, uint32_t> ids;                       // slot, if timers are known by ids
    std::map<int, int> held;                           // slot -> label
    std::map<int, int> calls;
    long unit;

    World(const J& c) : api(c["api"].GetString()), victim(c["victim"].GetInt()), labels(c["labels"].GetInt()), own(api == "timer" ? new boost::asio::io_context : nullptr),
        io(own ? *own : dots::io::global_io_context()), unit(c["unit"].GetInt()) {}
    ~World() { while (!held.empty()) clear(held.begin()->first); if (!own) settle(io); }

    void clear(int s)
    {
        if (!held.count(s)) return;
        held.erase(s);
        if (api == "id") dots::remove_timer(ids[s]);
        else objects[s] = std::nullopt;
    }
    int holder(int l) { for (auto& [s, k] : held) if (k == l) return s; return 0; }

    void create(int s, int l, int iv, bool per, std::string deed)
    {
        clear(s);
        auto handler = [this, l, iv, per, deed]
        {
            ++calls[l];
            int s = holder(l);
            if (deed == "kill") clear(victim);
            else if (s == 0) return;
            else if (deed == "destroy") clear(s);
            else if (deed == "discard") { held.erase(s); objects[s]->discard(); }
            else if (deed == "again") create(s, l, iv, per, deed);
        };
        dots::type::Duration d = std::chrono::milliseconds{ iv * unit };
        if (api == "id") ids[s] = dots::add_timer(d, handler, per);
        else if (api == "create") objects[s].emplace(dots::create_timer(d, handler, per));
        else objects[s].emplace(io, d, handler, per);
        held[s] = l;
    }
};

int main()
{
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd); return "{}"; }
        w->calls.clear();
        int s = cmd.HasMember("s") ? cmd["s"].GetInt() : 0;
        if (op == "Create") w->create(s, cmd["l"].GetInt(), cmd["iv"].GetInt(), cmd["per"].GetBool(), cmd["deed"].GetString());
        else if (op == "Destroy") w->clear(s);
        else if (op == "Discard") { if (w->objects[s]) w->objects[s]->discard(); w->held.erase(s); }
        else if (op == "Move")
        {
            int a = cmd["a"].GetInt(), b = cmd["b"].GetInt();
            if (w->objects[a] && w->objects[b]) *w->objects[b] = std::move(*w->objects[a]);
            else if (w->objects[a]) w->objects[b].emplace(std::move(*w->objects[a]));
            else w->objects[b] = std::nullopt;
            w->held.erase(b);
            if (w->held.count(a)) { w->held[b] = w->held[a]; w->held.erase(a); }
        }
        else if (op == "Advance") advance(w->io, cmd["d"].GetInt() * w->unit);
        else throw std::runtime_error("harness: " + op);
        settle(w->io);
        std::vector<std::string> v;
        for (int l = 1; l <= w->labels; ++l) v.push_back(std::to_string(w->calls[l]));
        return Obj{}.raw("calls", arr(v)).done();
    });
}
