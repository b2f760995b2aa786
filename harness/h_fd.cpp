// Drives dots::io::posix::FdObserver in step with specs/Fd.tla.
#include "common.h"
#include <array>
#include <fcntl.h>
#include <csignal>
#include <sys/stat.h>
#include <sys/socket.h>
#include <dots/asio.h>
#include <dots/io/FdObserver.h>
using namespace vt;
using dots::io::posix::FdObserver;

struct World
{
    dots::asio::io_context io;
    dots::asio::executor_work_guard<dots::asio::io_context::executor_type> work{ io.get_executor() };      // the loop does not end in between
    int n;
    std::map<std::string, std::optional<FdObserver>> slots;
    std::map<std::string, int> held;      // slot -> observation
    struct Obs { int mine = -1, other = -1; ino_t ino = 0; bool over = false, gone = false; int calls = 0, total = 0; std::string cond; };
    std::map<int, Obs> obs;
    int late = 0, errors = 0;
    std::string planA, planB, plan;

    World(const J& c) : n{ c["n"].GetInt() } { for (auto& s : c["slots"].GetArray()) { slots[s.GetString()]; held[s.GetString()] = 0; } }
    ~World()
    {
        for (auto& [k, s] : slots) s.reset();
        for (auto& [o, x] : obs) if (x.other >= 0) ::close(x.other);
    }
    std::string slotOf(int o) { for (auto& [k, h] : held) if (h == o) return k; return ""; }
    void end(const std::string& a)
    {
        if (held[a]) obs[held[a]].over = true;
        held[a] = 0;
        slots[a].reset();
    }
    void give(const std::string& a, const std::string& b, bool build)
    {
        if (held[b]) obs[held[b]].over = true;
        held[b] = held[a];
        held[a] = 0;
        if (build || !slots[b]) slots[b].emplace(std::move(*slots[a]));
        else *slots[b] = std::move(*slots[a]);
        slots[a].reset();
    }
    void letGo(const std::string& a)
    {
        held[a] = 0;
        slots[a]->discard();
        slots[a]->discard();
        slots[a].reset();
    }
    void called(int o, std::exception_ptr e)
    {
        Obs& x = obs[o];
        if (x.over) { ++late; return; }
        ++x.calls;
        if (e) ++errors;
        if (x.calls > 1000) { ++errors; io.stop(); return; }
        if (x.gone)
        {
            char c;
            if (x.cond == "read" && ::read(x.mine, &c, 1) == 1) return;
            end(slotOf(o));
            return;
        }
        if (!planA.empty() && slotOf(o) == planA)
        {
            std::string a = planA, b = planB;
            planA.clear();
            if (plan == "swap") { give(b, a, false); return; }
            if (plan == "discard") letGo(b); else end(b);
            if (x.over) return;
        }
        if (x.cond == "read") { char c; if (::read(x.mine, &c, 1) != 1) ++errors; }
        else if (x.cond == "write") { char buf[4096] = {}; while (::write(x.mine, buf, sizeof buf) > 0) {} while (::write(x.mine, buf, 1) > 0) {} }
        else ++errors;
    }
    void poll() { for (;;) { io.restart(); if (io.poll() == 0 || errors) break; } }
    bool closed(int o)
    {
        struct stat st;
        return ::fstat(obs[o].mine, &st) == -1 || st.st_ino != obs[o].ino;
    }
    std::string step(const std::string& op, const J& c)
    {
        for (auto& [o, x] : obs) x.calls = 0;
        late = errors = 0;
        auto text = [&](const char* k) { return std::string{ c[k].GetString() }; };
        if (op == "Make")
        {
            int o = c["o"].GetInt(), fds[2];
            if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, fds)) throw std::logic_error{ "harness: socketpair" };
            Obs& x = obs[o];
            x.mine = fds[0]; x.other = fds[1]; x.cond = text("cond");
            struct stat st; ::fstat(x.mine, &st); x.ino = st.st_ino;
            if (x.cond == "write") { int size = 4096; ::setsockopt(x.mine, SOL_SOCKET, SO_SNDBUF, &size, sizeof size); }
            FdObserver::handler_t h{ [this, o, n = 0](std::exception_ptr e) mutable
            {
                // the handler is one object from the first call to the last
                if (++n != ++obs[o].total) ++errors;
                called(o, e);
            } };
            using C = FdObserver::Condition;
            if (x.cond == "read" && o % 2) slots[text("a")].emplace(io, x.mine, std::move(h));
            else slots[text("a")].emplace(io, x.mine, std::move(h), x.cond == "read" ? C::ReadyForRead : x.cond == "write" ? C::ReadyForWrite : C::Error);
            held[text("a")] = o;
        }
        else if (op == "Drop") end(text("a"));
        else if (op == "Move") give(text("a"), text("b"), text("how") == "build");
        else if (op == "Discard") letGo(text("a"));
        else if (op == "Send") { if (::write(obs[c["o"].GetInt()].other, "x", 1) != 1) ++errors; }
        else if (op == "Drain") { char buf[65536]; while (::read(obs[c["o"].GetInt()].other, buf, sizeof buf) > 0) {} }
        else if (op == "Hang") { Obs& x = obs[c["o"].GetInt()]; x.gone = true; ::close(x.other); x.other = -1; }
        else if (op == "Poll") poll();
        else if (op == "PollPlan") { planA = text("a"); planB = text("b"); plan = text("plan"); poll(); if (!planA.empty()) ++errors; planA.clear(); }
        else throw std::logic_error{ "harness: " + op };
        Obj calls;
        std::vector<std::string> over;
        for (int o = 1; o <= n; ++o)
        {
            int k = obs.count(o) ? obs[o].calls : 0;
            calls.num(std::to_string(o), k);
        }
        for (int o = 1; o <= n; ++o) if (obs.count(o) && closed(o)) over.push_back("\"" + std::to_string(o) + "\"");
        return Obj().raw("calls", calls.done()).raw("closedS", arr(over)).num("late", late).num("errors", errors).done();
    }
};

int main()
{
    ::signal(SIGPIPE, SIG_IGN);
    std::unique_ptr<World> w;
    std::string bind;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(c); return "{}"; }
        return w->step(op, c);
    });
}
