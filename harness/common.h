// Shared parts of the conformance harnesses: JSON in/out, generic instance
// access, a scripted channel and listener.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <rapidjson/document.h>
#include <dots/type/AnyStruct.h>
#include <dots/type/Registry.h>
#include <dots/type/DynamicStruct.h>
#include <dots/type/DynamicEnum.h>
#include <dots/io/Channel.h>
#include <dots/io/Listener.h>
#include <dots/io/Transmission.h>
#include <dots/tools/logging.h>
#include <DotsHeader.dots.h>

namespace vt
{
    using J = rapidjson::Value;
    using dots::type::Type;
    using dots::type::Typeless;
    using Desc = dots::type::Descriptor<>;

    // ---------------------------------------------------------------- output
    inline std::string quote(std::string_view s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o += '"';
    }

    inline uint64_t fnv(std::string_view s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
        return h;
    }

    inline std::string qstr(std::string_view s)
    {
        // long strings travel as their length and hash
        if (s.size() <= 200) return quote(s);
        return "{\"$len\":" + std::to_string(s.size()) + ",\"$h\":\"" + std::to_string(fnv(s)) + "\"}";
    }

    struct Obj
    {
        std::string s;
        Obj& raw(std::string_view k, std::string_view v) { s += s.empty() ? "" : ","; s += quote(k); s += ':'; s += v; return *this; }
        Obj& str(std::string_view k, std::string_view v) { return raw(k, quote(v)); }
        Obj& num(std::string_view k, long long v) { return raw(k, std::to_string(v)); }
        Obj& boolean(std::string_view k, bool v) { return raw(k, v ? "true" : "false"); }
        std::string done() const { return "{" + s + "}"; }
    };

    inline std::string arr(const std::vector<std::string>& v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) o += ','; o += v[i]; }
        return o + "]";
    }

    inline std::string strs(const std::vector<std::string>& v)
    {
        std::vector<std::string> q;
        for (auto& s : v) q.push_back(quote(s));
        return arr(q);
    }

    // ------------------------------------------------------- generic instances
    inline std::string fp(double d)
    {
        if (std::isnan(d)) return "\"nan\"";
        if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }

    inline std::string valueJson(const Desc& d, const Typeless& v);

    inline std::string instJson(const dots::type::Struct& s, dots::property_set_t included = dots::property_set_t::All)
    {
        Obj o;
        for (const auto& pd : s._descriptor().propertyDescriptors())
        {
            if (pd.set() <= included && pd.set() <= s._validProperties())
            {
                o.raw(pd.name(), valueJson(pd.valueDescriptor(), s._propertyArea().template getProperty<Typeless>(pd.offset())));
            }
        }
        return o.done();
    }

    inline std::string names(const dots::type::StructDescriptor& d, dots::property_set_t set)
    {
        std::vector<std::string> v;
        for (const auto& pd : d.propertyDescriptors()) if (pd.set() <= set) v.push_back(quote(pd.name()));
        dots::property_set_t rest = set;
        rest -= d.properties();
        if (!rest.empty()) v.push_back(quote("$outside"));
        return arr(v);
    }

    inline std::string valueJson(const Desc& d, const Typeless& v)
    {
        switch (d.type())
        {
            case Type::boolean: return v.to<bool>() ? "true" : "false";
            case Type::int8: return std::to_string(v.to<int8_t>());
            case Type::uint8: return std::to_string(v.to<uint8_t>());
            case Type::int16: return std::to_string(v.to<int16_t>());
            case Type::uint16: return std::to_string(v.to<uint16_t>());
            case Type::int32: return std::to_string(v.to<int32_t>());
            case Type::uint32: return std::to_string(v.to<uint32_t>());
            case Type::int64: return std::to_string(v.to<int64_t>());
            case Type::uint64: return std::to_string(v.to<uint64_t>());
            case Type::float32: return fp(v.to<float>());
            case Type::float64: return fp(v.to<double>());
            case Type::property_set: return std::to_string(v.to<dots::property_set_t>().toValue());
            case Type::timepoint: return fp(v.to<dots::timepoint_t>().duration().toFractionalSeconds());
            case Type::steady_timepoint: return fp(v.to<dots::steady_timepoint_t>().duration().toFractionalSeconds());
            case Type::duration: return fp(v.to<dots::duration_t>().toFractionalSeconds());
            case Type::uuid: { std::string s; char b[4]; for (uint8_t x : v.to<dots::uuid_t>().data()) { snprintf(b, sizeof b, "%02x", x); s += b; } return quote(s); }
            case Type::string: return qstr(v.to<std::string>());
            case Type::Vector:
            {
                const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
                const auto& vec = v.to<dots::type::Vector<>>();
                std::vector<std::string> o;
                for (size_t i = 0; i < vec.typelessSize(); ++i) o.push_back(valueJson(vd.valueDescriptor(), vec.typelessAt(i)));
                if (o.size() > 100) { std::string all = arr(o); return "{\"$n\":" + std::to_string(o.size()) + ",\"$h\":\"" + std::to_string(fnv(all)) + "\"}"; }
                return arr(o);
            }
            case Type::Struct: return instJson(v.to<dots::type::Struct>());
            case Type::Enum:
                for (const auto& e : static_cast<const dots::type::EnumDescriptor&>(d).enumerators())
                    if (e.value() == v.to<int32_t>()) return quote(e.name());
                return std::to_string(v.to<int32_t>());
        }
        return "null";
    }

    inline std::string jstr(const J& j)
    {
        if (j.IsString()) return { j.GetString(), j.GetStringLength() };
        // {"$rep":"ab","$len":n}
        std::string unit = j["$rep"].GetString(), o;
        size_t n = j["$len"].GetUint64();
        while (o.size() < n) o += unit;
        o.resize(n);
        return o;
    }

    inline double jdbl(const J& j)
    {
        if (j.IsString()) { std::string s = j.GetString(); return s == "nan" ? NAN : s == "inf" ? INFINITY : s == "-inf" ? -INFINITY : strtod(s.c_str(), nullptr); }
        return j.GetDouble();
    }

    inline long long jint(const J& j) { return j.IsString() ? (long long)(j.GetString()[0] == '-' ? strtoll(j.GetString(), nullptr, 10) : (long long)strtoull(j.GetString(), nullptr, 10)) : j.IsUint64() ? (long long)j.GetUint64() : j.GetInt64(); }

    // v is a constructed value of type d
    inline void setValue(const Desc& d, Typeless& v, const J& j);

    inline void setInst(dots::type::Struct& s, const J& j)
    {
        if (!j.IsObject()) return; // the empty record is written as []
        for (auto it = j.MemberBegin(); it != j.MemberEnd(); ++it)
        {
            const auto& pds = s._descriptor().propertyDescriptors();
            bool found = false;
            for (const auto& pd : pds)
            {
                if (pd.name() == it->name.GetString())
                {
                    found = true;
                    dots::type::ProxyProperty<> p{ s, pd };
                    p.reset();
                    if (!it->value.IsNull())
                    {
                        p.emplace();
                        setValue(pd.valueDescriptor(), p.storage(), it->value);
                    }
                }
            }
            if (!found) throw std::runtime_error(std::string("harness: no property ") + it->name.GetString() + " in " + s._descriptor().name());
        }
    }

    inline void setValue(const Desc& d, Typeless& v, const J& j)
    {
        switch (d.type())
        {
            case Type::boolean: v.to<bool>() = j.GetBool(); break;
            case Type::int8: v.to<int8_t>() = int8_t(jint(j)); break;
            case Type::uint8: v.to<uint8_t>() = uint8_t(jint(j)); break;
            case Type::int16: v.to<int16_t>() = int16_t(jint(j)); break;
            case Type::uint16: v.to<uint16_t>() = uint16_t(jint(j)); break;
            case Type::int32: v.to<int32_t>() = int32_t(jint(j)); break;
            case Type::uint32: v.to<uint32_t>() = uint32_t(jint(j)); break;
            case Type::int64: v.to<int64_t>() = int64_t(jint(j)); break;
            case Type::uint64: v.to<uint64_t>() = uint64_t(jint(j)); break;
            case Type::float32: v.to<float>() = float(jdbl(j)); break;
            case Type::float64: v.to<double>() = jdbl(j); break;
            case Type::property_set: v.to<dots::property_set_t>() = dots::property_set_t{ uint32_t(jint(j)) }; break;
            case Type::timepoint: v.to<dots::timepoint_t>() = dots::timepoint_t{ dots::duration_t{ jdbl(j) } }; break;
            case Type::steady_timepoint: v.to<dots::steady_timepoint_t>() = dots::steady_timepoint_t{ dots::duration_t{ jdbl(j) } }; break;
            case Type::duration: v.to<dots::duration_t>() = dots::duration_t{ jdbl(j) }; break;
            case Type::uuid:
            {
                std::array<uint8_t, 16> a{};
                std::string h = j.GetString();
                for (int i = 0; i < 16; ++i) a[i] = uint8_t(std::stoi(h.substr(2 * i, 2), nullptr, 16));
                v.to<dots::uuid_t>() = dots::uuid_t{ a };
                break;
            }
            case Type::string: v.to<std::string>() = jstr(j); break;
            case Type::Vector:
            {
                const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
                auto& vec = v.to<dots::type::Vector<>>();
                if (j.IsObject()) // {"$n":count,"$v":value}
                {
                    size_t n = j["$n"].GetUint64();
                    vd.fill(vec, n);
                    for (size_t i = 0; i < n; ++i) setValue(vd.valueDescriptor(), vec.typelessAt(i), j["$v"]);
                }
                else
                {
                    vd.fill(vec, j.Size());
                    for (unsigned i = 0; i < j.Size(); ++i) setValue(vd.valueDescriptor(), vec.typelessAt(i), j[i]);
                }
                break;
            }
            case Type::Struct: setInst(v.to<dots::type::Struct>(), j); break;
            case Type::Enum:
                for (const auto& e : static_cast<const dots::type::EnumDescriptor&>(d).enumerators())
                    if (e.name() == j.GetString()) { v.to<int32_t>() = e.value(); return; }
                throw std::runtime_error(std::string("harness: no enumerator ") + j.GetString());
        }
    }

    inline dots::property_set_t propSet(const dots::type::StructDescriptor& d, const J& list)
    {
        dots::property_set_t r;
        for (auto& n : list.GetArray())
        {
            if (std::string(n.GetString()) == "$outside") { r += ~d.properties(); continue; }
            for (const auto& pd : d.propertyDescriptors()) if (pd.name() == n.GetString()) r += pd.set();
        }
        return r;
    }

    // A shared registry with every statically known type.
    inline dots::type::Registry& allTypes()
    {
        static dots::type::Registry r{ std::nullopt, dots::type::Registry::StaticTypePolicy::All };
        return r;
    }

    inline dots::type::AnyStruct make(const dots::type::StructDescriptor& d, const J& values)
    {
        dots::type::AnyStruct a{ d };
        setInst(*a, values);
        return a;
    }

    inline dots::type::AnyStruct make(const std::string& type, const J& values, dots::type::Registry& r = allTypes())
    {
        return make(r.getStructType(type), values);
    }

    // -------------------------------------------------------------- channels
    struct Sent
    {
        DotsHeader header;
        dots::type::AnyStruct instance;
    };

    struct ScriptChannel : dots::io::Channel
    {
        ScriptChannel(key_t key, std::string remote = "tcp://10.0.0.1:1", std::string local = "tcp://10.0.0.9:2") : Channel(key)
        {
            initEndpoints(dots::io::Endpoint{ local }, dots::io::Endpoint{ remote });
        }
        ~ScriptChannel() noexcept override { if (onDestroy) onDestroy(); }

        void inject(DotsHeader header, dots::type::AnyStruct instance)
        {
            auto keep = shared_from_this();
            processReceive(dots::io::Transmission{ std::move(header), std::move(instance) });
        }
        void fail(const std::string& what)
        {
            auto keep = shared_from_this();
            processError(what);
        }

        std::vector<Sent> sent;
        std::function<void()> onDestroy;
        std::function<void(const Sent&)> onSent;
        bool broken = false;
        int receiving = 0; // number of times the channel was told to go on receiving

    protected:
        void asyncReceiveImpl() override { ++receiving; }
        void transmitImpl(const DotsHeader& header, const dots::type::Struct& instance) override
        {
            if (broken) throw std::runtime_error("transmit failure");
            Sent s{ header, instance };
            if (onSent) onSent(s);
            sent.push_back(std::move(s));
        }
    };

    struct ScriptListener : dots::io::Listener
    {
        void accept(dots::io::channel_ptr_t c) { processAccept(std::move(c)); }
        void fail(const std::string& what) { processError(what); }
        int accepting = 0;
    protected:
        void asyncAcceptImpl() override { ++accepting; }
    };

    // header as JSON; times only as presence
    inline void headerJson(Obj& o, const DotsHeader& h, const dots::type::StructDescriptor& d)
    {
        if (h.attributes.isValid()) o.raw("attr", names(d, *h.attributes));
        if (h.removeObj.isValid() && *h.removeObj) o.boolean("rm", true);
        if (h.sender.isValid()) o.num("sender", *h.sender);
        if (h.fromCache.isValid()) o.num("fc", *h.fromCache);
    }

    // ------------------------------------------------------------------ main
    // Line by line input and output; answers go to the original stdout, while
    // what the library logs disappears unless VT_LOG is set.
    struct Io
    {
        FILE* o;
        std::string line;
        unsigned limit;
        Io()
        {
            int out = dup(1);
            if (!getenv("VT_LOG"))
            {
                FILE* f = freopen("/dev/null", "w", stdout);
                (void)f;
                std::clog.setstate(std::ios::failbit);
                std::cout.setstate(std::ios::failbit);
                dots::tools::loggingFrontend().setLogLevel(dots::tools::Level::emerg);
            }
            else dup2(2, 1);
            signal(SIGPIPE, SIG_IGN);
            o = fdopen(out, "w");
            limit = getenv("VT_STEP_TIMEOUT") ? atoi(getenv("VT_STEP_TIMEOUT")) : 20;
        }
        bool next(rapidjson::Document& d)
        {
            alarm(0);
            if (!std::getline(std::cin, line)) return false;
            d.Parse(line.c_str());
            if (d.HasParseError()) fail("harness: bad command");
            alarm(limit); // a step that hangs kills the process: reported as such
            return true;
        }
        void answer(const std::string& s)
        {
            fputs(s.c_str(), o);
            fputc('\n', o);
            fflush(o);
        }
        [[noreturn]] void fail(const char* what)
        {
            fprintf(stderr, "%s\ncommand: %s\n", what, line.c_str());
            fflush(o);
            _exit(4);
        }
        [[noreturn]] void finish() { fflush(o); _exit(0); }
    };

    using handler = std::function<std::string(const J&)>;

    inline int run(handler h)
    {
        Io io;
        rapidjson::Document d;
        while (io.next(d))
        {
            std::string r;
            try { r = h(d); }
            catch (const std::exception& e)
            {
                if (std::string(e.what()).rfind("harness:", 0) == 0) io.fail(e.what());
                r = Obj{}.str("exception", e.what()).done();
            }
            io.answer(r);
        }
        io.finish();
    }
}
