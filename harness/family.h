// Families of model types that share the abstract shape {key k; p; q}.  An
// abstract value is an index into a table of concrete values, 0 is "unset".
#pragma once
#include "common.h"
#include <dots/io/DescriptorConverter.h>

namespace vt
{
    struct Family
    {
        std::string name;
        bool dyn;
        std::unique_ptr<dots::type::Registry> dynTypes;
        std::vector<std::string> keyProps{ "k" };
        // concrete values per abstract property, as JSON texts; keys in ascending order
        std::map<std::string, std::vector<std::string>> table;
        std::map<std::string, const dots::type::StructDescriptor*> types;

        static std::map<std::string, std::vector<std::string>> tableOf(const std::string& n)
        {
            if (n == "Int") return { { "k", { "-5", "1", "2", "300", "65536", "2000000000" } }, { "p", { "1", "2", "0", "-7" } }, { "q", { "10", "20", "30", "40" } } };
            if (n == "Str") return { { "k", { "\"\"", "\"a\"", "\"a b\"", "\"b\"", "\"ba\"", "\"c\"" } },
                                     { "p", { "\"\"", "\"0123456789012345678901234567890123456789\"", "\"x\"", "\"y\"" } },
                                     { "q", { "[]", "[\"a\",\"b\"]", "[\"\"]", "[\"a\"]" } } };
            return { { "k", { "[\"green\",\"00000000000000000000000000000001\"]", "[\"green\",\"00000000000000000000000000000002\"]",
                              "[\"red\",\"00000000000000000000000000000000\"]", "[\"blue\",\"00000000000000000000000000000001\"]",
                              "[\"blue\",\"00000000000000000000000000000100\"]", "[\"blue\",\"ff000000000000000000000000000000\"]" } },
                     { "p", { "\"red\"", "\"green\"", "\"blue\"", "\"blue\"" } },
                     { "q", { "{}", "{\"a\":1,\"b\":\"s\"}", "{\"a\":2,\"c\":[1,2]}", "{\"c\":[]}" } } };
        }

        // a dynamic family lives in the given registry or in one of its own
        Family(std::string n, bool d, dots::type::Registry* into = nullptr) : name(std::move(n)), dyn(d), table(tableOf(name))
        {
            if (name == "Mix") keyProps.push_back("k2");
            auto& s = allTypes();
            const char* suffix[] = { "C", "K", "L", "U" };
            if (dyn)
            {
                if (into == nullptr)
                {
                    dynTypes = std::make_unique<dots::type::Registry>(std::nullopt, dots::type::Registry::StaticTypePolicy::FundamentalOnly);
                    into = dynTypes.get();
                }
                dots::io::DescriptorConverter c{ *into }, from{ s };
                c(from(s.getEnumType("VtColor")));
                c(from(s.getStructType("VtSub")));
                for (auto x : suffix) c(from(s.getStructType("Vt" + name + x)));
            }
            for (auto x : suffix) types[x] = &(dyn ? *into : s).getStructType("Vt" + name + x);
        }

        // C cached, D, E cached (cleanup), U uncached
        const dots::type::StructDescriptor& type(char t) const { return *types.at(t == 'D' ? "K" : t == 'E' ? "L" : std::string(1, t)); }

        rapidjson::Document doc(const std::string& p, int i) const
        {
            rapidjson::Document d;
            const auto& t = table.at(p);
            if (i < 1 || i > int(t.size())) throw std::runtime_error("harness: value index");
            d.Parse(t[i - 1].c_str());
            return d;
        }

        dots::type::AnyStruct inst(const dots::type::StructDescriptor& desc, int k, int p, int q) const
        {
            dots::type::AnyStruct a{ desc };
            auto set = [&](const char* prop, const J& v)
            {
                for (const auto& pd : desc.propertyDescriptors()) if (pd.name() == prop)
                {
                    dots::type::ProxyProperty<> pr{ *a, pd };
                    pr.emplace();
                    setValue(pd.valueDescriptor(), pr.storage(), v);
                }
            };
            if (k)
            {
                auto d = doc("k", k);
                if (keyProps.size() == 1) set("k", d);
                else { set("k", d[0]); set("k2", d[1]); }
            }
            if (p) { auto d = doc("p", p); set("p", d); }
            if (q) { auto d = doc("q", q); set("q", d); }
            return a;
        }
        dots::type::AnyStruct inst(char t, int k, int p, int q) const { return inst(type(t), k, p, q); }

        // index of a concrete value; 0 unset, 99 unknown value
        int index(const dots::type::Struct& s, const std::string& prop) const
        {
            std::string text;
            if (prop == "k" && keyProps.size() > 1)
            {
                std::vector<std::string> v;
                for (auto& kp : keyProps) v.push_back(value(s, kp));
                if (v[0].empty() && v[1].empty()) return 0;
                text = arr(v);
            }
            else text = value(s, prop);
            if (text.empty()) return 0;
            const auto& t = table.at(prop);
            for (size_t i = 0; i < t.size(); ++i) if (t[i] == text) return int(i) + 1;
            return 99;
        }
        int keyIndex(const dots::type::Struct& s) const { return index(s, "k"); }

        static std::string value(const dots::type::Struct& s, const std::string& prop)
        {
            for (const auto& pd : s._descriptor().propertyDescriptors())
                if (pd.name() == prop && pd.set() <= s._validProperties())
                    return valueJson(pd.valueDescriptor(), s._propertyArea().template getProperty<Typeless>(pd.offset()));
            return {};
        }

        std::string abst(const dots::type::Struct& s) const
        {
            Obj o;
            o.num("k", index(s, "k")).num("p", index(s, "p")).num("q", index(s, "q"));
            dots::property_set_t rest = s._validProperties();
            rest -= s._descriptor().properties();
            if (!rest.empty()) o.boolean("alien", true);
            return o.done();
        }

        // abstract names of a property set: k (all of the key), p, q, $outside
        std::string propNames(dots::property_set_t set) const
        {
            std::vector<std::string> v;
            const auto& desc = type('C');
            size_t keys = 0;
            for (const auto& pd : desc.propertyDescriptors())
                if (pd.set() <= set)
                {
                    if (pd.isKey()) ++keys;
                    else v.push_back(quote(pd.name()));
                }
            if (keys) v.push_back(quote(keys == keyProps.size() ? "k" : "$partkey"));
            dots::property_set_t rest = set;
            rest -= desc.properties();
            if (!rest.empty()) v.push_back(quote("$outside"));
            return arr(v);
        }

        dots::property_set_t props(const dots::type::StructDescriptor& desc, const J& list) const
        {
            dots::property_set_t r = propSet(desc, list);
            for (auto& n : list.GetArray()) if (std::string(n.GetString()) == "k") r += desc.keyProperties();
            return r;
        }
    };
}
