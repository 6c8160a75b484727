// C05: a request that does not succeed changes neither the value nor any change generation.
#include "resource_common.hpp"

using namespace res;

const char* const property_rule =
    "non-trivial: at least one mutating request failed (4xx or exception) on an existing node, or an injected fault (validator or copy of a value) fired";

void property(pbt::Choices& c)
{
    hook = {};
    J model = gen_root(c);
    if (c.chance(1, 8))
    {
        break_root(c, model); // everything that does not repair it is refused
        c.label("invalid at the start");
    }
    Root v;
    jm::from_j(v, model);
    auto r = kl::resources::make_resource(std::move(v));
    c.log() << "start " << jm::ser(root_schema(), model, true) << "\n";

    size_t n = 1 + c.below(6);
    for (size_t i = 0; i < n; ++i)
    {
        J before = jm::to_j(r.value);
        Request q = gen_request(c, before);
        auto state = r.state;

        hook = {};
        if (c.chance(1, 2))
        {
            hook.countdown = 1 + static_cast<int>(c.chance(1, 4) ? c.below(60) : c.below(6));
            hook.mode = static_cast<int>(c.below(4));
            hook.copies = c.chance(1, 4);
        }
        int armed = hook.countdown;
        Outcome got = execute(r, q);
        bool fired = hook.fired, copies = hook.copies;
        hook = {};
        c.log() << describe(q) << (armed ? " [armed " + std::to_string(armed) + (fired ? " FIRED]" : "]") : std::string()) << " -> "
                << got.status << " " << got.exc << "\n";
        bool ok = got.status >= 200 && got.status < 300;
        if (fired)
        {
            PBT_CHECK(!ok, describe(q) + ": reported success although a validator or a copy threw");
            c.label(copies ? "fault fired, copies included" : "validator fault fired");
            c.nontrivial();
        }
        if (ok && q.verb != Verb::get)
        {
            c.label("succeeded");
            continue;
        }
        if (q.verb != Verb::get && (got.status == 400 || got.status == 405 || got.status == 409 || got.status == 0))
        {
            c.nontrivial();
            c.label(got.status == 400 ? "400" : got.status == 405 ? "405" : got.status == 409 ? "409" : "exception");
        }
        J after = jm::to_j(r.value);
        if (!jm::same(before, after, true))
        {
            std::ostringstream m;
            m << describe(q) << " did not succeed (" << got.status << " " << got.exc << ") but changed the value from "
              << jm::ser(root_schema(), before, false) << " to " << jm::ser(root_schema(), after, false);
            PBT_FAIL(m.str());
        }
        auto& t0 = state.modifications;
        auto& t1 = r.state.modifications;
        PBT_CHECK(t0.current() == t1.current(), describe(q) + " did not succeed but advanced the generation");
        auto uni = universe(after);
        uni.push_back(q.path);
        for (auto& p : uni)
        {
            kl::path kp{encode(p)};
            PBT_CHECK(t0.changed_at(kp) == t1.changed_at(kp),
                      describe(q) + " did not succeed but changed the generation of " + encode(p));
        }
    }
}
