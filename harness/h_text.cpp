// Writes and reads the text forms of instances for specs/Text.tla.
#include "common.h"
#include <dots/io/DescriptorConverter.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
using dots::serialization::JsonSerializer;
using dots::serialization::StringSerializer;
using dots::serialization::TextOptions;
using Rapid = dots::serialization::RapidJsonSerializer<>;

static std::string hex(const std::string& s)
{
    std::string o;
    char b[4];
    for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
    return o;
}

// (unit*n) stands for n repetitions
static std::string unfold(const std::string& t)
{
    std::string o;
    for (size_t i = 0; i < t.size();)
    {
        size_t close;
        if (t[i] == '(' && (close = t.find(')', i)) != std::string::npos)
        {
            size_t star = t.rfind('*', close);
            for (size_t n = std::stoul(t.substr(star + 1, close - star - 1)); n; --n) o.append(t, i + 1, star - i - 1);
            i = close + 1;
        }
        else o += t[i++];
    }
    return o;
}

// \u00xx stands for a byte
static std::string rawBytes(const std::string& t)
{
    std::string o;
    for (size_t i = 0; i < t.size();)
        if (t.compare(i, 4, "\\u00") == 0 && i + 6 <= t.size()) { o += char(std::stoi(t.substr(i + 4, 2), nullptr, 16)); i += 6; }
        else o += t[i++];
    return o;
}

// long uniform strings and vectors are written as unit*count
static std::string text(const Desc& d, const Typeless& v)
{
    if (d.type() == Type::string)
    {
        const auto& s = v.to<std::string>();
        if (s.size() > 20 && s.find_first_not_of(s[0]) == std::string::npos) return s.substr(0, 1) + "*" + std::to_string(s.size());
        std::string o = "\"";
        char b[8];
        // UTF-8 to code points, as far as it is needed
        for (size_t i = 0; i < s.size(); ++i)
        {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else if (c >= 0xc2 && c <= 0xdf && i + 1 < s.size()) { snprintf(b, sizeof b, "\\u%04x", (c & 31) << 6 | (s[++i] & 63)); o += b; }
            else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }
    if (d.type() == Type::Vector)
    {
        const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
        const auto& vec = v.to<dots::type::Vector<>>();
        std::vector<std::string> o;
        for (size_t i = 0; i < vec.typelessSize(); ++i) o.push_back(text(vd.valueDescriptor(), vec.typelessAt(i)));
        if (o.size() > 20 && std::all_of(o.begin(), o.end(), [&](auto& x) { return x == o[0]; })) return "[" + o[0] + "]*" + std::to_string(o.size());
        std::string r = "[";
        for (auto& x : o) r += (r.size() > 1 ? "," : "") + x;
        return r + "]";
    }
    if (d.type() == Type::Struct)
    {
        const auto& s = v.to<dots::type::Struct>();
        std::map<uint32_t, std::string> o; // by tag, as in the specification
        for (const auto& pd : s._descriptor().propertyDescriptors())
            if (pd.set() <= s._validProperties()) o[pd.tag()] = "\"" + pd.name() + "\":" + text(pd.valueDescriptor(), s._propertyArea().getProperty<Typeless>(pd.offset()));
        std::string r = "{";
        for (auto& [t, x] : o) r += (r.size() > 1 ? "," : "") + x;
        return r + "}";
    }
    return valueJson(d, v);
}

static std::string values(const dots::type::Struct& s)
{
    Obj o;
    for (const auto& pd : s._descriptor().propertyDescriptors())
        if (pd.set() <= s._validProperties()) o.str(pd.name(), text(pd.valueDescriptor(), s._propertyArea().getProperty<Typeless>(pd.offset())));
    dots::property_set_t rest = s._validProperties();
    rest -= s._descriptor().properties();
    if (!rest.empty()) o.str("$outside", "");
    return o.done();
}



static void put(dots::type::Struct& s, const std::string& p, const std::string& x)
{
    for (const auto& pd : s._descriptor().propertyDescriptors()) if (pd.name() == p)
    {
        dots::type::ProxyProperty<> pr{ s, pd };
        pr.reset();
        if (x == "-") return;
        pr.emplace();
        size_t star = x.rfind('*');
        std::string t = x;
        size_t n = 0;
        if (star != std::string::npos) { n = std::stoul(x.substr(star + 1)); t = x.substr(0, star); }
        if (star != std::string::npos && x[0] != '[') { pr.storage().to<std::string>() = std::string(n, x[0]); return; }
        if (star != std::string::npos)
        {
            std::string unit = t.substr(1, t.size() - 2);
            t = "[";
            for (size_t i = 0; i < n; ++i) t += (i ? "," : "") + unit;
            t += "]";
        }
        rapidjson::Document d;
        d.Parse<rapidjson::kParseNumbersAsStringsFlag>(t.c_str());
        if (d.HasParseError()) throw std::runtime_error("harness: bad value " + t);
        setValue(pd.valueDescriptor(), pr.storage(), d);
        return;
    }
    throw std::runtime_error("harness: no property " + p);
}

struct World
{
    dots::type::Registry dynTypes{ std::nullopt, dots::type::Registry::StaticTypePolicy::FundamentalOnly };
    const dots::type::StructDescriptor* all = nullptr;
    const dots::type::StructDescriptor* dyn = nullptr;
    const dots::type::StructDescriptor* old = nullptr;
    std::unique_ptr<dots::type::AnyStruct> inst;

    World()
    {
        auto& s = allTypes();
        all = &s.getStructType("VtAll");
        old = &s.getStructType("VtOld");
        dots::io::DescriptorConverter c{ dynTypes }, from{ s };
        for (auto e : { "VtTone" }) c(from(s.getEnumType(e)));
        for (auto n : { "VtSub", "VtNest", "VtAll" }) c(from(s.getStructType(n)));
        dyn = &dynTypes.getStructType("VtAll");
        inst = std::make_unique<dots::type::AnyStruct>(*all);
    }

    const dots::type::StructDescriptor& type(const std::string& v) { return v == "old" ? *old : v == "dyn" ? *dyn : *all; }

    dots::type::AnyStruct copyAs(const dots::type::StructDescriptor& d)
    {
        dots::type::AnyStruct a{ d };
        for (const auto& pd : inst->get()._propertyDescriptors())
            if (pd.set() <= inst->get()._validProperties()) put(*a, pd.name(), text(pd.valueDescriptor(), inst->get()._propertyArea().getProperty<Typeless>(pd.offset())));
        return a;
    }
};

static TextOptions options(const J& cmd)
{
    TextOptions o;
    std::string y = cmd["style"].GetString();
    o.style = y == "Minified" ? TextOptions::Minified : y == "MultiLine" ? TextOptions::MultiLine : TextOptions::SingleLine;
    return o;
}

template <typename T>
static std::string writeInst(const std::string& fmt, const T& s, dots::property_set_t inc, TextOptions o)
{
    if (fmt == "rapid") return Rapid::Serialize(s, inc);
    if (fmt == "json") return JsonSerializer::Serialize(s, inc, o);
    return StringSerializer::Serialize(s, inc, o);
}

static std::string writeInst(const std::string& fmt, const dots::type::AnyStruct& a, dots::property_set_t inc, TextOptions o)
{
    if (auto* typed = a->_as<VtAll>()) return writeInst<VtAll>(fmt, *typed, inc, o);
    return writeInst<dots::type::Struct>(fmt, a.get(), inc, o);
}

template <typename S>
static bool readWith(S& in, dots::type::AnyStruct& a, const std::vector<char>& block, dots::property_set_t only)
{
    in.setInput(block.data(), block.size());
    if (auto* typed = a->_as<VtAll>(); typed && only == dots::property_set_t::All) in.deserialize(*typed);
    else in.deserialize(*a, only);
    for (auto p = in.inputData(); p < in.inputDataEnd(); ++p) if (!isspace((unsigned char)*p)) return false;
    return true;
}

// the input lies in a block of its own so that reading past it shows
static std::string read(const std::string& fmt, dots::type::AnyStruct& a, const std::string& t, dots::property_set_t only, bool& used)
{
    std::vector<char> block(t.begin(), t.end());
    block.shrink_to_fit();
    try
    {
        used = true;
        if (fmt == "rapid")
        {
            Rapid in;
            in.setInput(std::string_view{ block.data(), block.size() });
            if (auto* typed = a->_as<VtAll>(); typed && only == dots::property_set_t::All) in.deserialize(*typed);
            else in.deserialize(*a, only);
        }
        else if (fmt == "json") { JsonSerializer in; used = readWith(in, a, block, only); }
        else
        {
            TextOptions o;
            if (fmt == "strict") o.policy = TextOptions::Strict;
            StringSerializer in{ o };
            used = readWith(in, a, block, only);
        }
    }
    catch (const std::exception& e) { return std::string("x") + e.what(); }
    return {};
}

static std::string readAs(World& w, const std::string& fmt, const std::string& ver, const std::string& t)
{
    dots::type::AnyStruct to{ w.type(ver) };
    bool used;
    std::string err = read(fmt, to, t, dots::property_set_t::All, used);
    return err.empty() ? used ? values(*to) : quote("not all read") : quote(hex(err));
}

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(); return "{}"; }
        if (op == "Put")
        {
            put(**w->inst, cmd["p"].GetString(), cmd["x"].GetString());
            return Obj{}.raw("vals", values(**w->inst)).done();
        }
        std::string fmt = cmd["fmt"].GetString();
        if (op == "Write")
        {
            auto o = options(cmd);
            std::string t = writeInst(fmt, *w->inst, propSet(*w->all, cmd["inc"]), o);
            auto dyn = w->copyAs(*w->dyn);
            bool same = t == writeInst(fmt, dyn, propSet(*w->dyn, cmd["inc"]), o);
            dots::type::AnyStruct over{ *w->all };
            for (auto it = cmd["prev"].IsObject() ? cmd["prev"].MemberBegin() : J::ConstMemberIterator{}; cmd["prev"].IsObject() && it != cmd["prev"].MemberEnd(); ++it) put(*over, it->name.GetString(), it->value.GetString());
            bool used;
            std::string err = read(fmt, over, t, dots::property_set_t::All, used);
            std::string vals = readAs(*w, fmt, cmd["ver"].GetString(), t);
            if (fmt == "string" && o.style == TextOptions::MultiLine && readAs(*w, "strict", cmd["ver"].GetString(), t) != vals) same = false;
            return Obj{}.raw("vals", vals).raw("over", err.empty() ? values(*over) : quote(hex(err))).boolean("same", same).str("dom", fmt == "string" ? "-" : hex(t)).str("text", hex(t)).done();
        }
        if (op == "Scalar")
        {
            for (const auto& pd : w->all->propertyDescriptors()) if (pd.name() == cmd["p"].GetString())
            {
                auto& d = pd.valueDescriptor();
                auto& v = w->inst->get()._propertyArea().getProperty<Typeless>(pd.offset());
                std::string t = fmt == "rapid" ? Rapid::Serialize(v, d) : fmt == "json" ? JsonSerializer::Serialize(v, d, options(cmd)) : StringSerializer::Serialize(v, d, options(cmd));
                std::vector<char> block(t.begin(), t.end());
                block.shrink_to_fit();
                dots::type::AnyStruct a{ *w->all };
                dots::type::ProxyProperty<> pr{ *a, pd };
                pr.emplace();
                if (fmt == "rapid") Rapid::Deserialize(block.data(), block.size(), pr.storage(), d);
                else if (fmt == "json") JsonSerializer::Deserialize(block.data(), block.size(), pr.storage(), d);
                else StringSerializer::Deserialize(block.data(), block.size(), pr.storage(), d);
                return Obj{}.str("x", text(d, pr.storage())).str("text", hex(t)).done();
            }
        }
        if (op == "Read")
        {
            dots::type::AnyStruct to{ w->type(cmd["ver"].GetString()) };
            bool used = false;
            std::string err = read(fmt, to, unfold(cmd["text"].GetString()), cmd["only"].IsString() ? dots::property_set_t(dots::property_set_t::All) : propSet(to->_descriptor(), cmd["only"]), used);
            Obj o;
            o.boolean("err", !err.empty()).raw("vals", values(*to)).boolean("used", used);
            if (!err.empty()) o.str("why", hex(err));
            return o.done();
        }
        if (op == "Hostile")
        {
            dots::type::AnyStruct to{ *w->all };
            bool used;
            read(fmt, to, rawBytes(cmd["text"].GetString()), dots::property_set_t::All, used);
            return Obj{}.boolean("answered", true).done();
        }
        if (op == "Cut")
        {
            std::string t = unfold(cmd["text"].GetString());
            std::vector<std::string> accepted;
            for (size_t n = 0; n < t.size(); ++n)
            {
                dots::type::AnyStruct to{ w->type(cmd["ver"].GetString()) };
                bool used;
                if (read(fmt, to, t.substr(0, n), dots::property_set_t::All, used).empty()) accepted.push_back(std::to_string(n));
            }
            return Obj{}.raw("acceptedS", arr(accepted)).done();
        }
        throw std::runtime_error("harness: " + op);
    });
}
