// Drives the text notations of values in step with specs/Notation.tla.
#include "common.h"
#include <optional>
#include <dots/type/Chrono.h>
#include <dots/type/Uuid.h>
#include <dots/tools/IpNetwork.h>
using namespace vt;
using dots::type::Duration;
using dots::type::TimePoint;
using dots::type::SteadyTimePoint;
using dots::type::Uuid;
using dots::tools::IpNetwork;

static std::string amount(const Duration& x)
{
    double v = x.toFractionalSeconds();
    bool neg = v < 0;
    double a = std::fabs(v);
    auto whole = static_cast<long long>(std::floor(a));
    // a double has nanoseconds for some days, microseconds for long
    double unit = a < 1e6 ? 1e9 : 1e6;
    long long n = std::llround((a - double(whole)) * unit);
    if (n == static_cast<long long>(unit)) { n = 0; ++whole; }
    if (unit == 1e6) n *= 1000;
    return Obj().boolean("neg", neg).num("d", whole / 86400).num("s", whole % 86400).num("n", n).done();
}
static std::string point(const TimePoint& t)
{
    long long ms = std::llround(t.duration().toFractionalSeconds() * 1000);
    auto floordiv = [](long long a, long long b) { return a >= 0 ? a / b : -((-a + b - 1) / b); };
    long long d = floordiv(ms, 86400000), r = ms - d * 86400000;
    return Obj().num("d", d).num("s", r / 1000).num("ms", r % 1000).done();
}
static Uuid fromHex(std::string h)
{
    Uuid::value_t v{};
    for (size_t i = 0; i < 16; ++i) v[i] = uint8_t(std::stoi(h.substr(2 * i, 2), nullptr, 16));
    return Uuid{ v };
}
static std::string hex(const Uuid& u)
{
    std::string o;
    char b[4];
    for (uint8_t x : u.data()) { snprintf(b, sizeof b, "%02x", x); o += b; }
    return o;
}
template <typename F>
static std::string refused(F f)
{
    try { f(); }
    catch (const std::exception&) { return Obj().boolean("refused", true).done(); }
    return Obj().boolean("refused", false).done();
}

int main()
{
    std::optional<IpNetwork> last;
    int n = 0;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        auto text = [&](const char* k) { return std::string{ c[k].GetString(), c[k].GetStringLength() }; };
        auto num = [&](const char* k) { return c[k].GetInt(); };
        ++n;
        if (op == "reset") { last = std::nullopt; n = 0; dots::type::chrono::experimental::set_time_zone_override("Etc/UTC"); return "{}"; }
        if (op == "Bind") return "{}";
        if (op == "Duration")
        {
            double v = num("d") * 86400.0 + num("s") + num("n") * 1e-9;
            Duration x{ c["neg"].GetBool() ? -v : v };
            std::string t = x.toString();
            Obj o;
            o.str("text", t);
            if (n % 3 == 0 && SteadyTimePoint{ x }.toString() != t) o.str("steady", SteadyTimePoint{ x }.toString());
            Duration y{ 7.0 };
            if (n % 2) y = Duration::FromString(t); else y.fromString(t);
            if (n % 3 == 1) y = SteadyTimePoint::FromString(t).duration();
            return o.raw("back", amount(y)).done();
        }
        if (op == "ReadDuration")
        {
            std::string t = text("text");
            // the text need not end in a terminator
            std::string more = t + "5S";
            Duration x = n % 2 ? Duration::FromString(t) : Duration::FromString(std::string_view{ more }.substr(0, t.size()));
            return Obj().raw("back", amount(x)).done();
        }
        if (op == "BadDuration")
        {
            Duration x{ 5.0 };
            return refused([&] { if (n % 2) Duration::FromString(text("text")); else x.fromString(text("text")); });
        }
        if (op == "Zone")
        {
            std::string z = text("zone");
            dots::type::chrono::experimental::set_time_zone_override(z == "utc" ? "Etc/UTC" : z == "east" ? "Etc/GMT-5" : z == "west" ? "Pacific/Pago_Pago" : "Asia/Kathmandu");
            return Obj().boolean("ok", true).done();
        }
        if (op == "Point")
        {
            // whole milliseconds, as the calendar gives them
            TimePoint t{ Duration{ double((num("d") * 86400ll + num("s")) * 1000 + num("ms")) / 1000.0 } };
            std::string s = c["utc"].GetBool() ? t.toString(TimePoint::ISO8601DateTime, true) : n % 2 ? t.toString() : t.toString(TimePoint::DefaultFormat, false);
            TimePoint b;
            if (n % 2) b = TimePoint::FromString(s); else b.fromString(s);
            // the plain number
            TimePoint p = TimePoint::FromString(t.toString({}), {});
            Obj o;
            if (std::fabs((p - t).count()) > 1e-6) o.str("number", t.toString({}));
            return o.str("text", s).raw("back", point(b)).done();
        }
        if (op == "ReadPoint") return Obj().raw("back", point(TimePoint::FromString(text("text")))).done();
        if (op == "BadPoint") return refused([&] { TimePoint::FromString(text("text")); });
        if (op == "Id")
        {
            Uuid a = fromHex(text("a")), b = fromHex(text("b"));
            return Obj().str("text", a.toString()).boolean("eq", a == b).boolean("ne", a != b).boolean("lt", a < b).str("back", hex(Uuid::FromString(a.toString()))).done();
        }
        if (op == "ReadId") return Obj().str("back", hex(Uuid::FromString(text("text")))).done();
        if (op == "BadId") return refused([&] { Uuid::FromString(text("text")); });
        if (op == "IdData")
        {
            std::string d(size_t(num("n")), '\x5a'), got = d;
            std::string r = refused([&] { Uuid u = Uuid::FromData(d); got.assign(u.data().begin(), u.data().end()); });
            return got == d ? r : "{\"exception\":\"other bytes\"}";
        }
        if (op == "Fresh")
        {
            Uuid a = Uuid::Random(), b = Uuid::Random();
            return Obj().boolean("differ", a != b).boolean("back", Uuid::FromString(a.toString()) == a).done();
        }
        if (op == "Net")
        {
            std::string how = text("how"), t = text("text");
            auto len = uint8_t(num("len"));
            IpNetwork x = how == "text" ? IpNetwork{ t + "/" + std::to_string(len) } : how == "pair" ? IpNetwork{ t, len }
                        : how == "host" ? IpNetwork{ t } : IpNetwork{ dots::asio::ip::make_address(t) };
            auto [address, prefix] = x.toPrefixAddress();
            Obj o;
            o.boolean("four", x.isIpv4()).str("text", x.toString()).str("address", address.to_string()).num("len", prefix);
            if (x.isIpv6() == x.isIpv4()) o.str("six", "both");
            if (last) o.boolean("sub", x.isSubnetOf(*last)).boolean("over", last->isSubnetOf(x)).boolean("strict", x.isStrictSubnetOf(*last));
            last = x;
            return o.done();
        }
        if (op == "BadNet") return refused([&] { IpNetwork{ text("text") }; });
        if (op == "BadLen") return refused([&] { IpNetwork{ text("text"), uint8_t(num("len")) }; });
        throw std::logic_error("harness: " + op);
    });
}
