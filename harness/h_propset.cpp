// Sets of properties in step with specs/PropSet.tla.
#include "common.h"
#include <dots/type/PropertySet.h>
using namespace vt;
using dots::type::PropertySet;

static PropertySet of(const J& j)
{
    uint32_t v = 0;
    if (j.IsArray()) for (auto& x : j.GetArray()) v |= uint32_t(1) << x.GetUint();
    return PropertySet{ v };
}

static std::string about(PropertySet s)
{
    std::vector<std::string> members;
    for (uint32_t i = 0; i < 32; ++i)
        if (s.toValue() >> i & 1) members.push_back(std::to_string(i));
    Obj first, last, o;
    for (uint32_t i : { 0u, 1u, 8u, 16u, 31u }) 
    {
        uint64_t v = s.toValue(); // only what is there can be found
        if (v >> i) first.num(std::to_string(i), s.firstValid(i));
        if (v & ((uint64_t(2) << i) - 1)) last.num(std::to_string(i), s.lastValid(i));
    }
    // a single place is the set that is made from its number
    for (uint32_t i = 0; i < 32; ++i)
        if ((PropertySet::FromIndex(i) <= s) != bool(s.toValue() >> i & 1)) return Obj{}.str("exception", "place " + std::to_string(i)).done();
    if (bool(s) == s.empty()) return Obj{}.str("exception", "neither empty nor full").done();
    if (!s.empty() && (s.firstValid() != s.firstValid(0) || s.lastValid() != s.lastValid(31))) return Obj{}.str("exception", "first or last").done();
    std::string marked = s.toString('-', '#'), plain = s.toString();
    for (size_t i = 0; i < plain.size(); ++i)
        if ((plain[i] == '1') != (marked[i] == '#')) return Obj{}.str("exception", "text " + marked).done();
    return o.raw("membersS", arr(members)).num("count", s.count()).boolean("empty", s.empty()).str("text", plain).raw("first", first.done()).raw("last", last.done()).done();
}

int main()
{
    PropertySet s;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset" || op == "Bind") { s = PropertySet{}; return "{}"; }
        PropertySet b, before = s;
        if (c.HasMember("b")) b = of(c["b"]);
        if (op == "Compare")
            return Obj{}.boolean("eq", s == b).boolean("ne", s != b).boolean("lt", s < b).boolean("le", s <= b).boolean("gt", s > b).boolean("ge", s >= b).done();
        // every way to write an operation does the same
        std::vector<PropertySet> same;
        if (op == "Union") { same.push_back(s + b); s += b; }
        else if (op == "Minus") { same.push_back(s - b); s -= b; }
        else if (op == "Common") { same.push_back(s ^ b); same.push_back(s.intersection(b)); PropertySet t = s; t.intersect(b); same.push_back(t); s ^= b; }
        else if (op == "Either") { same.push_back(s.symmetricDifference(b)); s.symmetricSubtract(b); }
        else if (op == "Rest") { s = ~s; if (~s != before) return Obj{}.str("exception", "not undone").done(); }
        else throw std::logic_error("harness: " + op);
        for (auto x : same)
            if (x.toValue() != s.toValue()) return Obj{}.str("exception", "operators differ").done();
        if (PropertySet{ PropertySet::All }.toValue() != 0xffffffffu || PropertySet{ PropertySet::None }.toValue() != 0) return Obj{}.str("exception", "all or none").done();
        return about(s);
    });
}
