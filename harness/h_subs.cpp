// Drives the lifetimes of transceivers and subscriptions in step with specs/Subs.tla.
#include "common.h"
#include <boost/asio/io_context.hpp>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots_all.h>
#include <vt_all.h>
using namespace vt;
namespace dt = dots::type;

struct Place
{
    virtual ~Place() = default;
    virtual dots::Transceiver& get() = 0;
    virtual std::unique_ptr<Place> moveOut() = 0;
    virtual void moveIn(Place& o) = 0;
    virtual void publish(int n) = 0;
};

template <typename T>
struct PlaceOf : Place
{
    struct Open : T
    {
        using T::T;
        using T::dispatcher;
        void joinGroup(std::string_view) override {} // not connected to anybody
    };
    Open t;
    PlaceOf(boost::asio::io_context& io) : t("t", io, dt::Registry::StaticTypePolicy::All) {}
    PlaceOf(PlaceOf&& o) : t(std::move(o.t)) {}
    dots::Transceiver& get() override { return t; }
    std::unique_ptr<Place> moveOut() override { return std::make_unique<PlaceOf>(std::move(*this)); }
    void moveIn(Place& o) override { t = std::move(dynamic_cast<PlaceOf&>(o).t); }
    void publish(int n) override
    {
        VtIntC x{ .k = 1, .p = n };
        if constexpr (std::is_same_v<T, dots::HostTransceiver>) t.publish(x);
        else
        {
            // not connected: what would have been received
            DotsHeader h{ .typeName = "VtIntC", .sentTime = dots::timepoint_t::Now(), .attributes = x._validProperties(), .sender = 1 };
            t.dispatcher().dispatch(dots::io::Transmission{ h, dt::AnyStruct{ x } });
        }
    }
};

struct World
{
    boost::asio::io_context io;
    std::string kind;
    int n = 0;
    std::map<std::string, std::optional<dots::Subscription>> subs;
    std::map<int, std::unique_ptr<Place>> places;
    std::vector<std::string> told;
    bool quiet = false;
    std::string complaint;

    World(const J& c) : kind(c["transceiver"].GetString()) {}

    void say(int l) { if (!quiet) told.push_back(std::to_string(l)); }

    struct Body
    {
        World* w; int l; std::string drop; std::shared_ptr<dots::Subscription> own; std::shared_ptr<std::string> memory;
        void operator()() const
        {
            World& w_ = *w;
            auto m = memory.get();
            w_.say(l);
            if (!w_.quiet && drop != "-") w_.subs[drop].reset();
            if (*m != "alive") abort(); // a handler must not be destroyed while it runs
        }
    };

    void subscribe(const J& c)
    {
        auto& t = places.at(c["p"].GetInt())->get();
        std::string k = c["k"].GetString(), s = c["s"].GetString(), own = c["own"].GetString();
        Body b{ this, c["l"].GetInt(), c["drop"].GetString(), nullptr, std::make_shared<std::string>("alive") };
        if (own != "-") { b.own = std::make_shared<dots::Subscription>(std::move(*subs[own])); subs[own].reset(); }
        quiet = true; // replays are the business of other specifications
        std::optional<dots::Subscription> r;
        if (k == "ev") r.emplace(t.subscribe<VtIntC>([b](const dots::Event<VtIntC>&) { b(); }));
        else if (k == "evd") r.emplace(t.subscribe(VtIntC::_Descriptor(), [b](const dots::Event<>&) { b(); }));
        else if (k == "evn") r.emplace(t.subscribe("VtIntC", dots::Transceiver::event_handler_t<>{ [b](const dots::Event<>&) { b(); } }));
        else if (k == "raw") r.emplace(t.subscribe(VtIntC::_Descriptor(), dots::Transceiver::transmission_handler_t{ [b](const dots::io::Transmission&) { b(); } }));
        else if (k == "rawn") r.emplace(t.subscribe("VtIntC", dots::Transceiver::transmission_handler_t{ [b](const dots::io::Transmission&) { b(); } }));
        else r.emplace(t.subscribe(dots::Transceiver::new_type_handler_t<>{ [b](const Desc&) { b(); } }));
        quiet = false;
        b = {};
        subs[s].emplace(std::move(*r));
    }

    std::string step(const std::string& op, const J& c)
    {
        told.clear();
        int p = c.HasMember("p") ? c["p"].GetInt() : 0, q = c.HasMember("q") ? c["q"].GetInt() : 0;
        auto sub = [&](const char* n) -> auto& { return subs[c[n].GetString()]; };
        if (op == "Create") places[p] = kind == "host" ? std::unique_ptr<Place>(new PlaceOf<dots::HostTransceiver>(io)) : std::unique_ptr<Place>(new PlaceOf<dots::GuestTransceiver>(io));
        else if (op == "Destroy") places[p].reset();
        else if (op == "MoveConstruct") places[q] = places[p]->moveOut();
        else if (op == "MoveAssign") places[q]->moveIn(*places[p]);
        else if (op == "Clear") places[p]->get().clear();
        else if (op == "Subscribe") subscribe(c);
        else if (op == "Drop")
        {
            if (std::string(c["how"].GetString()) == "destroy") sub("s").reset();
            else if (sub("s")) { sub("s")->unsubscribe(); sub("s")->unsubscribe(); }
        }
        else if (op == "Discard") { if (sub("s")) sub("s")->discard(); }
        else if (op == "MoveSub")
        {
            auto &a = sub("a"), &b = sub("b");
            if (a && b) *b = std::move(*a);
            else if (a) b.emplace(std::move(*a));
            else b.reset();
            // the moved-from object stays around, empty
        }
        else if (op == "Publish") places[p]->publish(++n);
        else if (op == "NewType")
        {
            auto& r = places[p]->get().registry();
            std::string name = "Fresh" + std::to_string(++n);
            r.registerType<dt::Descriptor<dt::DynamicEnum>>(name, std::vector<dt::EnumeratorDescriptor>{});
            r.deregisterType(name);
        }
        else throw std::runtime_error("harness: " + op);
        return Obj().raw("told", arr(told)).done();
    }
};

int main()
{
    vt_touch();
    std::unique_ptr<World> w;
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        if (op == "reset") { w.reset(); return "{}"; }
        if (op == "Bind") { w = std::make_unique<World>(c); return "{}"; }
        return w->step(op, c);
    });
}
