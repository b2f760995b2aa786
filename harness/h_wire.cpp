// Encodes and decodes instances for specs/Wire.tla.
#include "common.h"
#include <dots/io/DescriptorConverter.h>
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
using dots::serialization::CborSerializer;
using Compact = dots::serialization::ExperimentalCborSerializer;

static std::string unhex(const std::string& h)
{
    std::string o;
    for (size_t i = 0; i < h.size();)
    {
        if (h[i] == '(')
        {
            size_t star = h.find('*', i), close = h.find(')', i);
            std::string unit = unhex(h.substr(i + 1, star - i - 1));
            for (size_t n = std::stoul(h.substr(star + 1, close - star - 1)); n; --n) o += unit;
            i = close + 1;
        }
        else { o += char(std::stoi(h.substr(i, 2), nullptr, 16)); i += 2; }
    }
    return o;
}

static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o;
}

// long uniform strings and vectors are written as unit*count
static std::string text(const Desc& d, const Typeless& v)
{
    if (d.type() == Type::string)
    {
        const auto& s = v.to<std::string>();
        if (s.size() > 20 && s.find_first_not_of(s[0]) == std::string::npos) return s.substr(0, 1) + "*" + std::to_string(s.size());
        std::string o = "\"";
        char b[8];
        // UTF-8 to code points, as far as it is needed
        for (size_t i = 0; i < s.size(); ++i)
        {
            unsigned char c = s[i];
            if (c >= 0xc2 && c <= 0xdf && i + 1 < s.size()) { snprintf(b, sizeof b, "\\u%04x", (c & 31) << 6 | (s[++i] & 63)); o += b; }
            else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }
    if (d.type() == Type::Vector)
    {
        const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
        const auto& vec = v.to<dots::type::Vector<>>();
        std::vector<std::string> o;
        for (size_t i = 0; i < vec.typelessSize(); ++i) o.push_back(text(vd.valueDescriptor(), vec.typelessAt(i)));
        if (o.size() > 20 && std::all_of(o.begin(), o.end(), [&](auto& x) { return x == o[0]; })) return "[" + o[0] + "]*" + std::to_string(o.size());
        std::string r = "[";
        for (auto& x : o) r += (r.size() > 1 ? "," : "") + x;
        return r + "]";
    }
    if (d.type() == Type::Struct)
    {
        const auto& s = v.to<dots::type::Struct>();
        std::map<uint32_t, std::string> o; // by tag, as in the specification
        for (const auto& pd : s._descriptor().propertyDescriptors())
            if (pd.set() <= s._validProperties()) o[pd.tag()] = "\"" + pd.name() + "\":" + text(pd.valueDescriptor(), s._propertyArea().getProperty<Typeless>(pd.offset()));
        std::string r = "{";
        for (auto& [t, x] : o) r += (r.size() > 1 ? "," : "") + x;
        return r + "}";
    }
    return valueJson(d, v);
}

static std::string values(const dots::type::Struct& s)
{
    Obj o;
    for (const auto& pd : s._descriptor().propertyDescriptors())
        if (pd.set() <= s._validProperties()) o.str(pd.name(), text(pd.valueDescriptor(), s._propertyArea().getProperty<Typeless>(pd.offset())));
    dots::property_set_t rest = s._validProperties();
    rest -= s._descriptor().properties();
    if (!rest.empty()) o.str("$outside", "");
    return o.done();
}



static void put(dots::type::Struct& s, const std::string& p, const std::string& x)
{
    for (const auto& pd : s._descriptor().propertyDescriptors()) if (pd.name() == p)
    {
        dots::type::ProxyProperty<> pr{ s, pd };
        pr.reset();
        if (x == "-") return;
        pr.emplace();
        size_t star = x.rfind('*');
        std::string t = x;
        size_t n = 0;
        if (star != std::string::npos) { n = std::stoul(x.substr(star + 1)); t = x.substr(0, star); }
        if (star != std::string::npos && x[0] != '[') { pr.storage().to<std::string>() = std::string(n, x[0]); return; }
        if (star != std::string::npos)
        {
            std::string unit = t.substr(1, t.size() - 2);
            t = "[";
            for (size_t i = 0; i < n; ++i) t += (i ? "," : "") + unit;
            t += "]";
        }
        rapidjson::Document d;
        d.Parse<rapidjson::kParseNumbersAsStringsFlag>(t.c_str());
        if (d.HasParseError()) throw std::runtime_error("harness: bad value " + t);
        setValue(pd.valueDescriptor(), pr.storage(), d);
        return;
    }
    throw std::runtime_error("harness: no property " + p);
}

struct World
{
    dots::type::Registry dynTypes{ std::nullopt, dots::type::Registry::StaticTypePolicy::FundamentalOnly };
    const dots::type::StructDescriptor* all = nullptr;
    const dots::type::StructDescriptor* dyn = nullptr;
    const dots::type::StructDescriptor* old = nullptr;
    std::unique_ptr<dots::type::AnyStruct> inst;
    CborSerializer out; // used for everything that is encoded, as a channel does
    Compact outCompact;
    bool compact;

    explicit World(bool compact) : compact(compact)
    {
        auto& s = allTypes();
        all = &s.getStructType("VtAll");
        old = &s.getStructType("VtOld");
        dots::io::DescriptorConverter c{ dynTypes }, from{ s };
        for (auto e : { "VtTone" }) c(from(s.getEnumType(e)));
        for (auto n : { "VtSub", "VtNest", "VtAll" }) c(from(s.getStructType(n)));
        dyn = &dynTypes.getStructType("VtAll");
        inst = std::make_unique<dots::type::AnyStruct>(*all);
    }

    const dots::type::StructDescriptor& type(const std::string& v) { return v == "old" ? *old : v == "dyn" ? *dyn : *all; }

    dots::type::AnyStruct copyAs(const dots::type::StructDescriptor& d)
    {
        dots::type::AnyStruct a{ d };
        for (const auto& pd : inst->get()._propertyDescriptors())
            if (pd.set() <= inst->get()._validProperties()) put(*a, pd.name(), text(pd.valueDescriptor(), inst->get()._propertyArea().getProperty<Typeless>(pd.offset())));
        return a;
    }

    static dots::property_set_t props(const dots::type::StructDescriptor& d, const J& j)
    {
        if (j.IsString()) return dots::property_set_t::All;
        return propSet(d, j);
    }

    std::string encode(const dots::type::Struct& s, dots::property_set_t inc, bool& size)
    {
        return compact ? encode(outCompact, s, inc, size) : encode(out, s, inc, size);
    }

    template <typename Out>
    static std::string encode(Out& out, const dots::type::Struct& s, dots::property_set_t inc, bool& size)
    {
        size_t before = out.output().size();
        size_t n;
        if (auto* typed = s._as<VtAll>()) n = out.serialize(*typed, inc);
        else n = out.serialize(s, inc);
        std::string r(out.output().begin() + before, out.output().end());
        size = n == r.size() && out.lastSerializeSize() == n;
        if (out.output().size() > 300000) out.output().clear();
        return r;
    }

    // the input lies in a block of its own so that reading past it shows
    std::string decode(dots::type::AnyStruct& a, const std::string& bytes, dots::property_set_t only, bool& used)
    {
        return compact ? decode<Compact>(a, bytes, only, used) : decode<CborSerializer>(a, bytes, only, used);
    }

    template <typename In>
    static std::string decode(dots::type::AnyStruct& a, const std::string& bytes, dots::property_set_t only, bool& used)
    {
        std::vector<uint8_t> block(bytes.begin(), bytes.end());
        block.shrink_to_fit();
        In in;
        in.setInput(block.data(), block.size());
        try
        {
            size_t n;
            if (auto* typed = a->_as<VtAll>(); typed && only == dots::property_set_t::All) n = in.deserialize(*typed);
            else n = in.deserialize(*a, only);
            used = n == bytes.size() && in.inputAvailable() == 0;
        }
        catch (const std::exception& e) { return e.what(); }
        return {};
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(cmd["fmt"] == "compact"); return "{}"; }
        if (op == "Put")
        {
            put(**w->inst, cmd["p"].GetString(), cmd["x"].GetString());
            return Obj{}.raw("vals", values(**w->inst)).done();
        }
        if (op == "Encode")
        {
            bool size;
            std::string bytes = w->encode(**w->inst, propSet(*w->all, cmd["inc"]), size);
            auto dyn = w->copyAs(*w->dyn);
            bool size2;
            std::string bytes2 = w->encode(*dyn, propSet(*w->dyn, cmd["inc"]), size2);
            return Obj{}.str("hex", hex(bytes)).boolean("size", size && size2 && bytes == bytes2).done();
        }
        if (op == "Transfer")
        {
            auto from = w->copyAs(w->type(cmd["from"].GetString()));
            bool size, used = false;
            std::string bytes = w->encode(*from, propSet(from->_descriptor(), cmd["inc"]), size);
            dots::type::AnyStruct to{ w->type(cmd["to"].GetString()) };
            std::string err = w->decode(to, bytes, dots::property_set_t::All, used);
            Obj o;
            o.boolean("err", !err.empty()).raw("vals", values(*to));
            if (!err.empty()) o.str("why", err);
            else if (!used) o.str("exception", "not all input was used");
            return o.done();
        }
        if (op == "Decode")
        {
            std::string bytes = unhex(cmd["hex"].GetString());
            dots::type::AnyStruct to{ w->type(cmd["ver"].GetString()) };
            bool used = false;
            std::string err = w->decode(to, bytes, w->props(to->_descriptor(), cmd["only"]), used);
            Obj o;
            o.boolean("err", !err.empty()).raw("vals", values(*to)).boolean("used", used);
            if (!err.empty()) o.str("why", err);
            return o.done();
        }
        if (op == "Cut")
        {
            std::string bytes = unhex(cmd["hex"].GetString());
            std::vector<std::string> accepted;
            for (size_t n = 0; n < bytes.size(); n += n > 200 && n + 200 < bytes.size() ? (bytes.size() > 10000 ? 4001 : 97) : 1)
            {
                dots::type::AnyStruct to{ w->type(cmd["ver"].GetString()) };
                bool used;
                if (w->decode(to, bytes.substr(0, n), dots::property_set_t::All, used).empty()) accepted.push_back(std::to_string(n));
            }
            return Obj{}.raw("acceptedS", arr(accepted)).done();
        }
        throw std::runtime_error("harness: " + op);
    });
}
