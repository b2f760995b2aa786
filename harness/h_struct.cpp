// Operates on instances for specs/StructOps.tla: typed, through the untyped
// interface, and of a dynamic type, all at once.
#include "common.h"
#include <array>
#include <unordered_set>
#include <dots/io/DescriptorConverter.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
using dots::type::Struct;
using dots::type::AnyStruct;
using dots::type::DynamicStruct;
using dots::property_set_t;

// -------------------------------------------------- what is still allocated
template <typename T>
struct Malloc
{
    using value_type = T;
    Malloc() = default;
    template <typename U> Malloc(const Malloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { free(p); }
    bool operator==(const Malloc&) const { return true; }
};
static bool tracking = false;
static auto& blocks() { static auto* b = new (malloc(sizeof(std::unordered_set<void*, std::hash<void*>, std::equal_to<>, Malloc<void*>>))) std::unordered_set<void*, std::hash<void*>, std::equal_to<>, Malloc<void*>>; return *b; }
static void* take(size_t n, size_t align = 0)
{
    void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    if (tracking) blocks().insert(p);
    return p;
}
static void give(void* p) { if (p && !blocks().empty()) blocks().erase(p); free(p); }
struct Track { Track() { tracking = true; } ~Track() { tracking = false; } };
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }

// --------------------------------------------------------------- values
static const char* NAMES[] = { "p", "k", "s", "v" };
static const uint32_t TAGS[] = { 3, 9, 1, 31 };

static int32_t number(int rank) { return rank * 1000 - 1500; }
static int rankOf(int32_t v) { return v % 1000 == 500 || v % 1000 == -500 ? (v + 1500) / 1000 : -1; }
static std::string text(int rank) { return rank == 1 ? "" : std::string(rank == 2 ? 1 : 40, char('_' + rank)); }
static int rankOf(const std::string& s) { for (int r = 1; r < 9; ++r) if (text(r) == s) return r; return -1; }
// ascending: [], [{}], [{},{}], [{z}], [{z},{}]
static std::vector<int> elems(int rank) { static const std::vector<int> e[] = { {}, {}, { 0 }, { 0, 0 }, { 1 }, { 1, 0 } }; return e[rank]; }

static property_set_t setOf(int m)
{
    property_set_t r;
    for (int i = 0; i < 4; ++i) if (m >> i & 1) r += property_set_t::FromIndex(TAGS[i]);
    return r;
}
static int numOf(property_set_t s)
{
    int m = 0;
    for (int i = 0; i < 4; ++i) if (property_set_t::FromIndex(TAGS[i]) <= s) m |= 1 << i;
    return setOf(m) == s ? m : -1;
}

static std::string get(const Struct& s);
static std::string getProp(const dots::type::PropertyDescriptor& pd, const Typeless& v)
{
    switch (pd.valueDescriptor().type())
    {
        case Type::int32: return std::to_string(rankOf(v.to<int32_t>()));
        case Type::string: return std::to_string(rankOf(v.to<std::string>()));
        case Type::Struct: return get(v.to<Struct>());
        default:
        {
            const auto& vd = static_cast<const dots::type::VectorDescriptor&>(pd.valueDescriptor());
            const auto& vec = v.to<dots::type::Vector<>>();
            std::vector<int> e;
            for (size_t i = 0; i < vec.typelessSize(); ++i) e.push_back(vec.typelessAt(i).to<Struct>()._validProperties().empty() ? 0 : 1);
            (void)vd;
            for (int r = 1; r < 6; ++r) if (elems(r) == e) return std::to_string(r);
            return "-1";
        }
    }
}
static std::string get(const Struct& s)
{
    Obj o;
    for (const auto& pd : s._descriptor().propertyDescriptors())
        o.raw(pd.name(), pd.set() <= s._validProperties() ? "[" + getProp(pd, s._propertyArea().getProperty<Typeless>(pd.offset())) + "]" : "[]");
    property_set_t rest = s._validProperties();
    rest -= s._descriptor().properties();
    if (!rest.empty()) o.str("$outside", "");
    return o.done();
}

static void put(Struct& s, const J& j);
static void putValue(const Desc& d, Typeless& v, const J& j)
{
    switch (d.type())
    {
        case Type::int32: v.to<int32_t>() = number(j.GetInt()); break;
        case Type::string: v.to<std::string>() = text(j.GetInt()); break;
        case Type::Struct: put(v.to<Struct>(), j); break;
        default:
        {
            const auto& vd = static_cast<const dots::type::VectorDescriptor&>(d);
            auto& vec = v.to<dots::type::Vector<>>();
            auto e = elems(j.GetInt());
            vd.fill(vec, e.size());
            for (size_t i = 0; i < e.size(); ++i)
            {
                auto& s = vec.typelessAt(i).to<Struct>();
                s._clear();
                if (e[i]) s._begin()->emplace(Typeless::From(text(3)));
            }
        }
    }
}
static void put(Struct& s, const J& j)
{
    for (const auto& pd : s._descriptor().propertyDescriptors())
    {
        const J& v = j[pd.name().c_str()];
        dots::type::ProxyProperty<> p{ s, pd };
        p.reset();
        if (v.Empty()) continue;
        p.emplace();
        putValue(pd.valueDescriptor(), p.storage(), v[0]);
    }
}

// ------------------------------------------------------------- the variants
struct Typed
{
    using T = VtWhole;
    using H = VtWhole;
    static H make(const dots::type::StructDescriptor&) { return {}; }
    static T& ref(H& h) { return h; }
    static H copy(H& h) { return h; }
    static H move(H& h) { return std::move(h); }
    static H cross(H& h) { AnyStruct a{ h }; return a.to<VtWhole, true>(); }
    static const dots::type::StructDescriptor& desc(dots::type::Registry&) { return VtWhole::_Descriptor(); }
};
struct Any
{
    using T = Struct;
    using H = AnyStruct;
    static H make(const dots::type::StructDescriptor& d) { return AnyStruct{ d }; }
    static T& ref(H& h) { return h.get(); }
    static H copy(H& h) { return h; }
    static H move(H& h) { return std::move(h); }
    static H cross(H& h) { if (auto* t = h.as<VtWhole>()) { VtWhole w{ *t }; return AnyStruct{ w }; } return AnyStruct{ h.get() }; }
    static const dots::type::StructDescriptor& desc(dots::type::Registry&) { return VtWhole::_Descriptor(); }
};
struct Dyn
{
    using T = DynamicStruct;
    using H = DynamicStruct;
    static H make(const dots::type::StructDescriptor& d) { return DynamicStruct{ d.to<dots::type::Descriptor<DynamicStruct>, true>() }; }
    static T& ref(H& h) { return h; }
    static H copy(H& h) { return h; }
    static H move(H& h) { return std::move(h); }
    static H cross(H& h) { AnyStruct a{ h }; return static_cast<DynamicStruct&>(a.get()); }
    static const dots::type::StructDescriptor& desc(dots::type::Registry& r) { return r.getStructType("VtWhole"); }
};
struct DynAny : Any
{
    static const dots::type::StructDescriptor& desc(dots::type::Registry& r) { return r.getStructType("VtWhole"); }
};

static std::string arr2(const std::vector<std::string>& v) { return arr(v); }

template <typename V>
struct Pair
{
    using T = typename V::T;
    using H = typename V::H;
    const dots::type::StructDescriptor& desc;
    std::optional<H> ha, hb;
    bool goneA = false, goneB = false;

    explicit Pair(dots::type::Registry& r) : desc(V::desc(r)) { fresh(); }
    void fresh() { ha.emplace(V::make(desc)); hb.emplace(V::make(desc)); goneA = goneB = false; }
    void drop() { ha.reset(); hb.reset(); }
    T& a() { return V::ref(*ha); }
    T& b() { return V::ref(*hb); }
    static const Struct& st(const T& t) { return t; }
    static Struct& st(T& t) { return t; }

    std::string state()
    {
        Obj o;
        o.raw("a", goneA ? "{\"skip\":true}" : Obj{}.raw("x", get(st(a()))).done());
        o.raw("b", goneB ? "{\"skip\":true}" : Obj{}.raw("x", get(st(b()))).done());
        return o.done();
    }

    // the order as the comparisons tell it, if they agree
    static int sign(const T& x, const T& y, property_set_t inc)
    {
        bool eq = x._equal(y, inc), lt = less(x, y, inc), le = x._lessEqual(y, inc), gt = x._greater(y, inc), ge = x._greaterEqual(y, inc);
        if (lt + eq + gt != 1 || le != (lt || eq) || ge != (gt || eq)) return 9;
        return lt ? -1 : gt ? 1 : 0;
    }
    static bool less(const T& x, const T& y, property_set_t inc)
    {
        if constexpr (std::is_same_v<T, DynamicStruct>) return static_cast<const Struct&>(x)._less(y, inc);
        else return x._less(y, inc);
    }

    template <typename R>
    static std::string namesOf(R&& range)
    {
        std::vector<std::string> v;
        for (auto& p : range) v.push_back(quote(p.descriptor().name()));
        return arr(v);
    }
    template <typename R>
    static std::string pairNames(R&& range)
    {
        std::vector<std::string> v;
        for (auto& [p, q] : range) v.push_back(quote(p.descriptor().name() == q.descriptor().name() ? p.descriptor().name() : "different"));
        return arr(v);
    }
    static std::string backwards(const std::string& s)
    {
        rapidjson::Document d;
        d.Parse(s.c_str());
        std::vector<std::string> v;
        for (size_t i = d.Size(); i; --i) v.push_back(quote(d[unsigned(i - 1)].GetString()));
        return arr(v);
    }
    static std::string agree(std::vector<std::string> v)
    {
        for (auto& x : v) if (x != v[0]) return strs({ "disagree: " + x + " and " + v[0] });
        return v[0];
    }

    std::string step(const J& cmd, const std::string& op)
    {
        if (op == "Load") { put(st(a()), cmd["x"]); put(st(b()), cmd["y"]); return state(); }
        if (op == "compare")
        {
            std::vector<std::string> c, s;
            for (int m = 0; m < 16; ++m)
            {
                const T& x = a();
                const T& y = b();
                // properties outside the type make no difference
                property_set_t inc = setOf(m), more = inc + property_set_t::FromIndex(17);
                int g = sign(x, y, inc), h = sign(y, x, inc), g2 = sign(x, y, more);
                int d = numOf(x._diffProperties(y, inc)), e = numOf(y._diffProperties(x, inc)), d2 = numOf(x._diffProperties(y, more));
                if (h != -g || g2 != g) g = 8;
                if (e != d || d2 != d) d = -2;
                c.push_back("[" + std::to_string(g) + "," + std::to_string(d) + "]");
                s.push_back("[" + std::to_string(sign(x, x, inc)) + "," + std::to_string(numOf(x._diffProperties(x, inc))) + "]");
            }
            const T& x = a();
            const T& y = b();
            int o = x == y ? 0 : x < y ? -1 : 1;
            if ((x != y) != (o != 0) || (x > y) != (o > 0) || (x >= y) != (o >= 0) || (x <= y) != (o <= 0)) o = 9;
            Obj r;
            r.raw("cmp", arr(c)).raw("self", arr(s)).num("ops", o).boolean("same", x._same(y));
            return r.done();
        }
        if (op == "look")
        {
            Struct& x = a();
            const Struct& cx = x;
            Struct& y = b();
            const Struct& cy = y;
            std::vector<std::string> all, valid, both, has, exact, paths, set, byName;
            for (int m = 0; m < 16; ++m)
            {
                property_set_t inc = setOf(m);
                all.push_back(agree({ namesOf(x._propertyRange(inc)), namesOf(cx._propertyRange(inc)), backwards(namesOf(x._propertyRangeReversed(inc))), backwards(namesOf(cx._propertyRangeReversed(inc))),
                                      pairNames(x._propertyRange(y, inc)), pairNames(x._propertyRange(cy, inc)), pairNames(cx._propertyRange(cy, inc)),
                                      backwards(pairNames(x._propertyRangeReversed(y, inc))), backwards(pairNames(x._propertyRangeReversed(cy, inc))), backwards(pairNames(cx._propertyRangeReversed(cy, inc))) }));
                valid.push_back(agree({ namesOf(x._validPropertyRange(inc)), namesOf(cx._validPropertyRange(inc)), backwards(namesOf(x._validPropertyRangeReversed(inc))), backwards(namesOf(cx._validPropertyRangeReversed(inc))) }));
                both.push_back(agree({ pairNames(x._validPropertyRange(y, inc)), pairNames(x._validPropertyRange(cy, inc)), pairNames(cx._validPropertyRange(cy, inc)),
                                       backwards(pairNames(x._validPropertyRangeReversed(y, inc))), backwards(pairNames(x._validPropertyRangeReversed(cy, inc))), backwards(pairNames(cx._validPropertyRangeReversed(cy, inc))) }));
                bool h = cx._hasProperties(inc), e = cx.template _hasProperties<false>(inc);
                auto asserts = [&](auto&& f) { try { f(); return true; } catch (const std::logic_error&) { return false; } };
                has.push_back(h == asserts([&]{ cx._assertHasProperties(inc); }) ? h ? "true" : "false" : "\"disagree\"");
                exact.push_back(e == asserts([&]{ cx.template _assertHasProperties<false>(inc); }) ? e ? "true" : "false" : "\"disagree\"");
            }
            for (auto& path : cx._propertyPaths())
            {
                std::string n;
                for (const dots::type::PropertyDescriptor& pd : path.elements()) n += (n.empty() ? "" : ".") + pd.name();
                paths.push_back(quote(n));
                const auto p = x._get(path);
                const auto p2 = x._get(n);
                set.push_back(p.isValid() != p2.isValid() || path.destination().name() != p.descriptor().name() ? "\"disagree\"" : p.isValid() ? "true" : "false");
            }
            for (int i = 0; i < 4; ++i)
            {
                auto it = cx[NAMES[i]];
                auto jt = x[TAGS[i]];
                if (it == cx._end() || jt == x._end() || it->descriptor().tag() != TAGS[i] || jt->descriptor().name() != NAMES[i] || it->isValid() != (setOf(1 << i) <= cx._validProperties())) return Obj{}.str("lookup", NAMES[i]).done();
            }
            if (cx["q"] != cx._end() || x[2] != x._end() || x["s.x"] != x._end()) return Obj{}.str("lookup", "unknown").done();
            Obj r;
            r.raw("all", arr(all)).raw("valid", arr(valid)).raw("both", arr(both)).raw("has", arr(has)).raw("exact", arr(exact)).raw("paths", arr(paths)).raw("set", arr(set));
            r.raw("keys", names(cx._descriptor(), cx._keyProperties()));
            return r.done();
        }
        if (op == "path")
        {
            std::string how = cmd["how"].GetString();
            const char* path = cmd["path"].GetString();
            const J& v = cmd["v"];
            std::string got = "[]";
            bool refused = false;
            auto prop = a()._get(path);
            if (how == "set") { prop.emplace(); putValue(prop.descriptor().valueDescriptor(), prop.storage(), v); }
            else if (how == "again" || how == "orset")
            {
                // a value of its own, then copied in
                dots::type::ProxyProperty<> target = prop;
                H other = V::make(desc);
                auto value = V::ref(other)._get(path);
                value.emplace();
                putValue(value.descriptor().valueDescriptor(), value.storage(), v);
                if (how == "again") { if (prop.descriptor().valueDescriptor().type() == Type::int32) prop.template to<int32_t, true>() = number(v.GetInt()); else prop.assign(value); }
                else got = "[" + getProp(prop.descriptor(), prop.valueOrEmplace(*value)) + "]";
            }
            else if (how == "reset") prop.reset();
            else if (how == "get")
            {
                try { got = "[" + getProp(prop.descriptor(), *prop) + "]"; }
                catch (const std::runtime_error&) { refused = true; }
            }
            else if (how == "ordefault")
            {
                if (std::string(path) == "p") got = "[" + std::to_string(rankOf(prop.template to<int32_t, true>().valueOrDefault(number(v.GetInt())))) + "]";
                else got = "[" + std::to_string(rankOf(prop.template to<std::string, true>().valueOrDefault(text(v.GetInt())))) + "]";
            }
            else throw std::runtime_error("harness: " + how);
            rapidjson::Document d;
            std::string s = state();
            d.Parse(s.c_str());
            return Obj{}.raw("a", Obj{}.raw("x", get(st(a()))).done()).boolean("refused", refused).raw("got", got).done();
        }
        if (op == "badpath")
        {
            try { a()._get(cmd["path"].GetString()); return Obj{}.boolean("refused", false).done(); }
            catch (const std::runtime_error&) { return Obj{}.boolean("refused", true).done(); }
        }
        if (op == "make")
        {
            std::string how = cmd["how"].GetString();
            if (how == "copy") { H n = V::copy(*ha); hb.emplace(V::copy(n)); }
            else if (how == "move") { hb.emplace(V::move(*ha)); goneA = true; }
            else if (how == "copyassign") *hb = *ha;
            else if (how == "moveassign") { *hb = std::move(*ha); goneA = true; }
            else { H n = V::cross(*ha); hb.emplace(V::move(n)); }
            goneB = false;
            return state();
        }
        if (op == "revive")
        {
            // a moved from holder may be empty and can only be replaced as a whole
            if (cmd["who"] == "a") { ha.emplace(V::copy(*hb)); goneA = false; }
            else { if constexpr (std::is_same_v<H, AnyStruct>) b()._assign(a()); else *hb = *ha; goneB = false; }
            return state();
        }
        property_set_t inc = cmd.HasMember("m") && cmd["m"].GetInt() == 15 ? property_set_t(property_set_t::All) : setOf(cmd["m"].GetInt());
        if (op == "assign") a()._assign(b(), inc);
        else if (op == "moveassign") { a()._assign(std::move(b()), inc); goneB = true; }
        else if (op == "copy") a()._copy(b(), inc);
        else if (op == "merge") a()._merge(b(), inc);
        else if (op == "swap") a()._swap(b(), inc);
        else if (op == "clear") a()._clear(inc);
        else if (op == "self")
        {
            std::string how = cmd["how"].GetString();
            if (how == "assign") a()._assign(a(), inc);
            else if (how == "copy") a()._copy(a(), inc);
            else if (how == "merge") a()._merge(a(), inc);
            else if (how == "swap") a()._swap(a(), inc);
        }
        else throw std::runtime_error("harness: " + op);
        return state();
    }
};

struct World
{
    dots::type::Registry dynTypes{ std::nullopt, dots::type::Registry::StaticTypePolicy::FundamentalOnly };
    std::optional<Pair<Typed>> typed;
    std::optional<Pair<Any>> any;
    std::optional<Pair<Dyn>> dyn;
    std::optional<Pair<DynAny>> dynAny;

    World()
    {
        auto& s = allTypes();
        dots::io::DescriptorConverter c{ dynTypes }, from{ s };
        for (auto n : { "VtLeaf", "VtPart", "VtWhole" }) c(from(s.getStructType(n)));
        s.getStructType("VtWhole").propertyPaths();
        dynTypes.getStructType("VtWhole").propertyPaths();
        fresh();
    }
    void fresh()
    {
        blocks().clear();
        Track t;
        typed.emplace(dynTypes);
        any.emplace(dynTypes);
        dyn.emplace(dynTypes);
        dynAny.emplace(dynTypes);
    }
    size_t drop()
    {
        typed.reset(); any.reset(); dyn.reset(); dynAny.reset();
        return blocks().size();
    }
    ~World() { drop(); }
};

int main()
{
    vt_touch();
    elems(1); // its table is not to be counted
    std::unique_ptr<World> w;
    return vt::run([&](const J& cmd) -> std::string
    {
        std::string op = cmd["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(); return "{}"; }
        if (op == "Drop")
        {
            size_t n = w->drop();
            w->fresh();
            return Obj{}.num("leaked", n).done();
        }
        if (op == "sets")
        {
            using P = property_set_t;
            auto read = [&](const char* k) { P r; for (auto& t : cmd[k].GetArray()) r += P::FromIndex(t.GetUint()); return r; };
            auto list = [](P s) { std::vector<std::string> v; for (uint32_t i = 0; i < 32; ++i) if (s.toValue() >> i & 1) v.push_back(std::to_string(i)); return arr(v); };
            auto same = [&](std::vector<P> v) { for (auto& x : v) if (x != v[0]) return std::string("\"disagree\""); return list(v[0]); };
            P x = read("x"), y = read("y"), u = x, i = x, m = x, s = x, n = x;
            u += y; i ^= y; m -= y; n.intersect(y); s.symmetricSubtract(y);
            std::vector<std::string> first, last, text;
            for (uint32_t k = 0; k < 32; ++k)
            {
                // which one is returned when there is none is not defined
                first.push_back(std::to_string((x ^ P{ ~0u << k }).empty() ? -1 : int(x.firstValid(k))));
                last.push_back(std::to_string((x ^ P{ ~0u >> (31 - k) }).empty() ? -1 : int(x.lastValid(k))));
                text.push_back(quote(std::string(1, x.toString()[k])));
            }
            if (!x.empty() && (x.firstValid() != x.firstValid(0) || x.lastValid() != x.lastValid(31))) first.clear();
            Obj o;
            o.raw("unionS", same({ x + y, u })).raw("interS", same({ x ^ y, i, n, x.intersection(y) })).raw("minusS", same({ x - y, m })).raw("symS", same({ x.symmetricDifference(y), s })).raw("notS", list(~x));
            o.boolean("sub", (x <= y) && (y >= x)).boolean("strict", (x < y) && (y > x)).boolean("eq", x == y && !(x != y)).boolean("empty", x.empty() && !x).num("count", x.count());
            o.raw("first", arr(first)).raw("last", arr(last)).raw("text", arr(text));
            return o.done();
        }
        Track t;
        if (const char* only = getenv("VT_ONLY")) // to look into one of them
        {
            switch (only[0]) { case '0': return w->typed->step(cmd, op); case '1': return w->any->step(cmd, op); case '2': return w->dyn->step(cmd, op); default: return w->dynAny->step(cmd, op); }
        }
        std::array<std::string, 4> r{ w->typed->step(cmd, op), w->any->step(cmd, op), w->dyn->step(cmd, op), w->dynAny->step(cmd, op) };
        static const char* who[] = { "typed", "untyped", "dynamic", "untyped dynamic" };
        // all of them have to be as expected: the odd one out is shown
        for (int i = 1; i < 4; ++i) if (r[i] != r[0]) return Obj{}.str("exception", std::string(who[i]) + " " + r[i] + " but typed " + r[0]).done();
        return r[0];
    });
}
