// Times of the system in step with specs/SysTime.tla.
#include "common.h"
#include <cmath>
#include <ctime>
#include <sys/time.h>
#include <dots/type/PosixTime.h>
using namespace vt;
using dots::type::Duration;
using dots::type::libc::Timespec;
using dots::type::posix::Timeval;
using dots::type::posix::PosixTm;

static Duration duration(const J& j)
{
    double v = j["s"].GetInt() + j["e"].GetInt() / 8.0;
    return Duration{ j["less"].GetBool() ? v - 1e-11 : v };
}
struct Parts { long long sec, part, unit; double back; };
static Parts parts(const Timespec& t) { const timespec* p = t; return { p->tv_sec, p->tv_nsec, 1000000000, Duration{ t }.toFractionalSeconds() }; }
static Parts parts(const Timeval& t) { const timeval* p = t; return { p->tv_sec, p->tv_usec, 1000000, Duration{ t }.toFractionalSeconds() }; }
static std::string json(const Parts& p) { return Obj().num("sec", p.sec).raw("eighths", p.part % (p.unit / 8) ? "\"" + std::to_string(p.part) + "\"" : std::to_string(p.part / (p.unit / 8))).done(); }
static bool formed(const Parts& p) { return p.part >= 0 && p.part < p.unit; }

template <typename T>
static std::string convert(const T& t, Duration d)
{
    Parts p = parts(t);
    return Obj().raw("parts", json(p)).boolean("back", std::fabs(p.back - d.toFractionalSeconds()) < 1e-10).boolean("formed", formed(p)).done();
}
template <typename T>
static std::string combine(Duration a, Duration b)
{
    T x{ a }, y{ b };
    Parts s = parts(x + y), d = parts(x - y);
    return Obj().raw("sum", json(s)).raw("diff", json(d)).boolean("less", x < y).boolean("more", x > y).boolean("formed", formed(s) && formed(d)).done();
}

static std::string zone() { const char* z = getenv("TZ"); return z ? z : "-"; }

int main()
{
    std::optional<PosixTm> tm;
    auto show = [&](Obj& o, bool text)
    {
        Obj f;
        f.num("y", tm->year()).num("m", tm->month()).num("d", tm->day()).num("wd", tm->weekDay()).num("h", tm->hour()).num("mi", tm->minute()).num("s", tm->second());
        o.raw("fields", f.done());
        char b[64] = "";
        if (text) { size_t n = tm->strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S"); o.str("text", std::string(b, n)); }
    };
    auto moment = [&](Obj& o, time_t t)
    {
        long long d = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
        o.num("d", d).num("s", t - d * 86400).str("zone", zone());
    };
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        Obj o;
        if (op == "reset" || op == "Bind") { unsetenv("TZ"); tzset(); tm.reset(); }
        else if (op == "Convert")
        {
            Duration d = duration(c["d"]);
            std::string k = c["kind"].GetString();
            if (k == "timespec") return convert(Timespec{ d }, d);
            if (k == "timeval") return convert(Timeval{ d }, d);
            if (k == "point") return convert(Timespec{ dots::type::TimePoint{ d } }, d);
            if (k == "steady") return convert(Timespec{ dots::type::SteadyTimePoint{ d } }, d);
        }
        else if (op == "Combine") return std::string(c["kind"].GetString()) == "timespec" ? combine<Timespec>(duration(c["a"]), duration(c["b"])) : combine<Timeval>(duration(c["a"]), duration(c["b"]));
        else if (op == "Zone")
        {
            std::string z = c["z"].GetString();
            if (z == "-") unsetenv("TZ"); else setenv("TZ", z.c_str(), true);
            tzset();
            tm.reset();
            o.str("zone", zone());
        }
        else if (op == "Drop") { tm.reset(); o.str("zone", zone()); }
        else if (op == "Take") { tm.emplace(time_t(c["d"].GetInt()) * 86400 + c["s"].GetInt(), c["utc"].GetBool()); show(o, true); }
        else if (op == "Make") { time_t t = tm->mktime(c["utc"].GetBool()); moment(o, t); show(o, true); }
        else if (op == "Later")
        {
            std::string u = c["unit"].GetString();
            int n = c["n"].GetInt();
            if (u == "day") tm->day(tm->day() + n);
            else if (u == "hour") tm->hour(tm->hour() + n);
            else if (u == "minute") tm->minute(tm->minute() + n);
            else tm->second(tm->second() + n);
            time_t t = tm->mktime(c["utc"].GetBool());
            moment(o, t);
            show(o, true);
        }
        else if (op == "Read")
        {
            PosixTm other{ 0, true };
            std::string text = c["text"].GetString();
            char* end = other.strptime(text, "%Y-%m-%d %H:%M:%S");
            (void)end;
            moment(o, other.mktime(c["utc"].GetBool()));
        }
        else throw std::logic_error("harness: " + op);
        return o.done();
    });
}
