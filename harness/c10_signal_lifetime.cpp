#include <cstdint>
#include "pbt.hpp"
#include <kl/signal.hpp>
#include <array>
#include <memory>
#include <optional>

const char* const property_rule =
    "histories of 10..60 operations over 3 signals (moved, swapped, destroyed), pools of connections, scoped connections and "
    "blockers, slots whose captured token owns handles of other slots and may disconnect slots / clear / query signals when destroyed, and "
    "slots that run operations or throw; a monitor tracks handle references and disconnections and the token population is "
    "compared with it at every quiescent point; non-trivial = at least one slot state died and one captured token owned a handle";

constexpr int NS = 3, NH = 6, NSC = 4, NB = 3;
struct Boom {};

// ---- monitor ------------------------------------------------------------------------------
struct SlotInfo
{
    bool alive = false;      // token exists
    int deaths = 0;
    bool disconnected = false;
    int refs = 0;            // live library handles (connection/scoped/blocker) naming this slot
    int sig = -1;            // signal currently holding it
};

struct Ctx;
static Ctx* g = nullptr;

// Library handles together with the index of the slot they name.
struct H
{
    kl::connection c;
    int s = -1;
};
void ref(int s, int d);

struct Token
{
    int id;
    std::vector<H> own;                                            // plain handles: only released
    std::vector<std::pair<std::unique_ptr<kl::scoped_connection>, int>> scoped; // disconnect on destruction
    std::vector<std::pair<std::unique_ptr<kl::connection::blocker>, int>> blockers;
    int on_death = 0, arg = 0; // extra action in the destructor
    ~Token();
};

using Sig = kl::signal<void(int)>;

struct Ctx
{
    pbt::Choices& c;
    std::vector<SlotInfo> slots;
    std::array<std::optional<Sig>, NS> sig;
    std::array<int, NS> emitting{};
    std::array<H, NH> con;
    std::array<std::pair<std::unique_ptr<kl::scoped_connection>, int>, NSC> sc;
    std::array<std::pair<std::unique_ptr<kl::connection::blocker>, int>, NB> bl;
    int depth = 0, dying = 0, ops = 0;
    unsigned busy = 0; // handle objects being modified: dying tokens leave those very objects alone
    struct Busy
    {
        unsigned& b;
        unsigned old;
        Busy(unsigned& b, int h) : b(b), old(b) { b |= 1u << h; }
        ~Busy() { b = old; }
    };
    bool token_owned = false, died = false, closing = false;
    explicit Ctx(pbt::Choices& c) : c(c)
    {
        for (auto& s : sig)
            s.emplace();
        for (auto& x : sc)
            x.second = -1;
        for (auto& x : bl)
            x.second = -1;
    }

    void disc(int s)
    {
        if (s >= 0)
            slots[s].disconnected = true;
    }
    void set_con(int h, kl::connection v, int s)
    { // copy assignment of the library handle
        ref(s, 1);
        int old = con[h].s;
        con[h].s = s;
        Busy b{busy, h};
        con[h].c = v;
        ref(old, -1);
    }
    void connect(int sg, int h, bool front);
    void drop_scoped(int k)
    {
        auto old = std::move(sc[k].first);
        int s = sc[k].second;
        sc[k].second = -1;
        disc(s);
        old.reset();
        ref(s, -1);
    }
    void clear_marks(int sg)
    {
        for (auto& s : slots)
            if (s.sig == sg)
                s.disconnected = true;
    }
    void step();
    void quiescent(const char* where);
};

void ref(int s, int d)
{
    if (s >= 0 && g)
        g->slots[s].refs += d;
}

Token::~Token()
{
    Ctx& x = *g;
    x.slots[id].alive = false;
    ++x.slots[id].deaths;
    x.died = true;
    ++x.dying;
    x.c.log() << "(token " << id << " dies";
    if (!x.closing || on_death <= 3 || on_death == 6)
        switch (on_death)
        {
        case 1: { // disconnect some pool handle
            if (x.busy & (1u << (arg % NH)))
                break;
            H& h = x.con[arg % NH];
            Ctx::Busy b{x.busy, arg % NH};
            int s = h.s;
            x.c.log() << " disconnects con" << arg % NH << "=#" << s;
            x.disc(s);
            h.s = -1;
            h.c.disconnect();
            ref(s, -1);
            break;
        }
        case 2: // release a scoped connection
            x.c.log() << " drops scoped" << arg % NSC;
            x.drop_scoped(arg % NSC);
            break;
        case 3: { // release a blocker
            auto b = std::move(x.bl[arg % NB].first);
            int s = x.bl[arg % NB].second;
            x.bl[arg % NB].second = -1;
            b.reset();
            ref(s, -1);
            break;
        }
        case 4: // query a signal
            if (x.sig[arg % NS])
                (void)x.sig[arg % NS]->num_slots();
            break;
        case 5: // clear a signal
            x.c.log() << " clears sig" << arg % NS;
            if (x.sig[arg % NS])
            {
                x.clear_marks(arg % NS);
                x.sig[arg % NS]->disconnect_all_slots();
            }
            break;
        case 6: { // ask for the running slot
            auto cur = kl::this_signal::current_connection();
            auto copy = cur;
            (void)copy.connected();
            break;
        }
        default: break;
        }
    for (auto& h : own)
    {
        int s = h.s;
        h.s = -1;
        h.c = kl::connection{};
        ref(s, -1);
    }
    for (auto& p : scoped)
    {
        x.disc(p.second);
        p.first.reset();
        ref(p.second, -1);
    }
    for (auto& p : blockers)
    {
        p.first.reset();
        ref(p.second, -1);
    }
    --x.dying;
    x.c.log() << ") ";
}

struct Slot
{
    std::shared_ptr<Token> t;
    int mode;
    void operator()(int) const
    {
        Ctx& x = *g;
        if (!x.slots[t->id].alive)
            PBT_FAIL("slot " << t->id << " called after its state was destroyed");
        if (x.slots[t->id].disconnected)
            PBT_FAIL("slot " << t->id << " called after it was disconnected");
        if (x.depth >= 3 || x.ops > 120)
            return;
        ++x.depth;
        struct D
        {
            int& d;
            ~D() { --d; }
        } d{x.depth};
        x.c.log() << "[in #" << t->id << ": ";
        switch (mode)
        {
        case 1: x.step(); break;
        case 2: x.step(); x.step(); x.step(); break;
        case 3: throw Boom{};
        case 4: x.step(); throw Boom{};
        case 5: kl::this_signal::stop_emission(); break;
        case 7: // stopping one emission says nothing about the others it starts
            kl::this_signal::stop_emission();
            x.step();
            x.step();
            break;
        case 6: { // disconnect itself
            int s = t->id;
            x.disc(s);
            kl::this_signal::current_connection().disconnect();
            break;
        }
        default: break;
        }
        x.c.log() << "] ";
    }
};

void Ctx::connect(int sg, int h, bool front)
{
    auto t = std::make_shared<Token>();
    t->id = static_cast<int>(slots.size());
    slots.push_back({});
    slots.back().alive = true;
    slots.back().sig = sg;
    int id = t->id;
    c.log() << "connect #" << id << " sig" << sg << " con" << h;
    while (t->own.size() + t->scoped.size() + t->blockers.size() < 3 && c.chance(1, 3))
    {
        int k = static_cast<int>(c.below(NH));
        if (con[k].s < 0)
            continue;
        token_owned = true;
        ref(con[k].s, 1);
        switch (c.draw(3))
        {
        case 0:
            c.log() << " owns-handle #" << con[k].s;
            t->own.push_back(con[k]);
            break;
        case 1:
            c.log() << " owns-scoped #" << con[k].s;
            t->scoped.emplace_back(std::make_unique<kl::scoped_connection>(con[k].c), con[k].s);
            break;
        default:
            c.log() << " owns-blocker #" << con[k].s;
            t->blockers.emplace_back(std::make_unique<kl::connection::blocker>(con[k].c), con[k].s);
            break;
        }
    }
    if (c.chance(1, 3))
    {
        t->on_death = 1 + static_cast<int>(c.draw(6));
        t->arg = static_cast<int>(c.draw(12));
        c.log() << " on-death " << t->on_death << "/" << t->arg;
    }
    Slot s{std::move(t), static_cast<int>(c.draw(8))};
    c.log() << " mode " << s.mode;
    kl::connection cn;
    if (c.flip())
        cn = sig[sg]->connect(s, front ? kl::at_front : kl::at_back);
    else
        cn = sig[sg]->connect(std::move(s), front ? kl::at_front : kl::at_back);
    s.t.reset();
    set_con(h, cn, id);
    c.log() << "; ";
}

void Ctx::step()
{
    ++ops;
    int a = static_cast<int>(c.below(c.flip() ? 1 : NS)), h = static_cast<int>(c.below(NH)), k = static_cast<int>(c.below(NH));
    switch (c.weighted({6, 5, 4, 2, 2, 2, 3, 2, 2, 2, 2, 2, 1, 2, 2, 2, 1, 1}))
    {
    case 0: connect(a, h, c.chance(1, 3)); break;
    case 1: {
        c.log() << "emit sig" << a << " ";
        ++emitting[a];
        struct E
        {
            int& e;
            ~E() { --e; }
        } e{emitting[a]};
        try
        {
            (*sig[a])(1);
        }
        catch (const Boom&)
        {
            c.label("slot threw");
            if (depth && c.flip())
                throw;
        }
        c.log() << "; ";
        break;
    }
    case 2: {
        c.log() << "disconnect con" << h << "=#" << con[h].s << "; ";
        int s = con[h].s;
        disc(s);
        con[h].s = -1;
        Busy b{busy, h};
        con[h].c.disconnect();
        ref(s, -1);
        break;
    }
    case 3: // copy a handle (possibly onto itself)
        c.log() << "con" << h << "=con" << k << "; ";
        if (h == k)
        {
            Busy b{busy, h};
            auto& self = con[h].c;
            con[h].c = self;
        }
        else
            set_con(h, con[k].c, con[k].s);
        break;
    case 4: // move a handle, the source is reset afterwards
    {
        c.log() << "con" << h << "=move con" << k << "; ";
        if (h == k)
            break;
        int old = con[h].s;
        con[h].s = con[k].s;
        con[k].s = -1;
        con[h].c = std::move(con[k].c);
        con[k].c = kl::connection{};
        ref(old, -1);
        break;
    }
    case 5: set_con(h, kl::connection{}, -1); break;
    case 6: { // scoped from a handle
        int q = static_cast<int>(c.below(NSC));
        c.log() << "scoped" << q << "=con" << h << "=#" << con[h].s << "; ";
        auto n = std::make_unique<kl::scoped_connection>(con[h].c);
        int s = con[h].s;
        ref(s, 1);
        if (sc[q].first && c.flip())
        { // assignment releases (and disconnects) the previous one
            int old = sc[q].second;
            disc(old);
            sc[q].second = s;
            kl::scoped_connection* target = sc[q].first.get();
            auto keep = std::move(sc[q].first); // a dying token may drop scoped q
            sc[q].second = -1;
            *target = std::move(*n);
            n.reset();
            ref(old, -1);
            if (sc[q].first)
                drop_scoped(q);
            sc[q].first = std::move(keep);
            sc[q].second = s;
        }
        else
        {
            drop_scoped(q);
            if (sc[q].first)
                drop_scoped(q);
            sc[q].first = std::move(n);
            sc[q].second = s;
        }
        break;
    }
    case 7: {
        int q = static_cast<int>(c.below(NSC));
        c.log() << "drop scoped" << q << "=#" << sc[q].second << "; ";
        drop_scoped(q);
        break;
    }
    case 8: { // release scoped into a handle
        int q = static_cast<int>(c.below(NSC));
        if (!sc[q].first)
            break;
        c.log() << "con" << h << "=release scoped" << q << "; ";
        auto p = std::move(sc[q].first);
        int s = sc[q].second;
        sc[q].second = -1;
        auto cn = p->release();
        p.reset();
        set_con(h, cn, s);
        cn = kl::connection{};
        ref(s, -1);
        break;
    }
    case 9: {
        int q = static_cast<int>(c.below(NB));
        c.log() << "blocker" << q << "=con" << h << "=#" << con[h].s << "; ";
        auto n = std::make_unique<kl::connection::blocker>(con[h].c.get_blocker());
        int s = con[h].s;
        ref(s, 1);
        auto old = std::move(bl[q].first);
        int os = bl[q].second;
        bl[q].first = std::move(n);
        bl[q].second = s;
        old.reset();
        ref(os, -1);
        break;
    }
    case 10: {
        int q = static_cast<int>(c.below(NB));
        auto old = std::move(bl[q].first);
        int os = bl[q].second;
        bl[q].second = -1;
        old.reset();
        ref(os, -1);
        break;
    }
    case 11: { // copy/move blockers
        int q = static_cast<int>(c.below(NB)), r = static_cast<int>(c.below(NB));
        if (q == r || !bl[r].first)
            break;
        auto old = std::move(bl[q].first);
        int os = bl[q].second;
        bl[q].second = -1;
        if (c.flip() && old)
        {
            ref(bl[r].second, 1);
            int s = bl[r].second;
            const kl::connection::blocker src = *bl[r].first; // a dying token may drop the pool entry
            *old = src;
            ref(os, -1);
            auto extra = std::move(bl[q].first); // nobody sets it meanwhile except dying tokens, which only reset
            bl[q].first = std::move(old);
            bl[q].second = s;
        }
        else
        {
            old.reset();
            ref(os, -1);
            if (bl[r].first)
            {
                bl[q].first = std::make_unique<kl::connection::blocker>(std::move(*bl[r].first));
                bl[q].second = bl[r].second;
                bl[r].second = -1;
                bl[r].first.reset();
            }
        }
        break;
    }
    case 12:
        c.log() << "clear sig" << a << "; ";
        clear_marks(a);
        sig[a]->disconnect_all_slots();
        break;
    case 13: { // swap
        int b = static_cast<int>(c.below(NS));
        if (depth || a == b)
            break;
        c.log() << "swap sig" << a << " sig" << b << "; ";
        swap(*sig[a], *sig[b]);
        for (auto& s : slots)
            s.sig = s.sig == a ? b : s.sig == b ? a : s.sig;
        break;
    }
    case 14: { // move construct out and back
        if (depth)
            break;
        c.log() << "move-construct sig" << a << "; ";
        Sig tmp{std::move(*sig[a])};
        if (c.flip())
            sig[a].emplace(std::move(tmp));
        else
        {
            *sig[a] = std::move(tmp);
        }
        break;
    }
    case 15: // destroy and recreate
        if (depth)
            break;
        c.log() << "destroy sig" << a << "; ";
        clear_marks(a);
        for (auto& s : slots)
            if (s.sig == a)
                s.sig = -1;
        sig[a].emplace();
        break;
    case 16: { // move assign; whatever the source holds afterwards is cleared
        int b = static_cast<int>(c.below(NS));
        if (depth || a == b)
            break;
        c.log() << "sig" << a << " = move sig" << b << "; ";
        clear_marks(a);
        for (auto& s : slots)
            s.sig = s.sig == a ? -1 : s.sig == b ? a : s.sig;
        *sig[a] = std::move(*sig[b]);
        sig[b]->disconnect_all_slots();
        break;
    }
    default: { // the slot disconnects through the current connection, from anywhere
        auto cur = kl::this_signal::current_connection();
        if (!depth)
            PBT_CHECK(!cur.connected(), "current connection outside of any emission");
        break;
    }
    }
}

void Ctx::quiescent(const char* where)
{
    size_t n[NS] = {};
    for (size_t i = 0; i < slots.size(); ++i)
    {
        auto& s = slots[i];
        bool want = !s.disconnected || s.refs > 0;
        if (s.disconnected && s.refs == 0)
            PBT_CHECK(!s.alive, where << ": state of slot #" << i << " is leaked: it is disconnected and no handle refers to it");
        if (want)
            PBT_CHECK(s.alive, where << ": state of slot #" << i << " was destroyed too early (disconnected=" << s.disconnected << " handles=" << s.refs << ")");
        PBT_CHECK(s.deaths <= 1, where << ": state of slot #" << i << " destroyed " << s.deaths << " times");
        if (!s.disconnected && s.sig >= 0)
            ++n[s.sig];
    }
    for (int i = 0; i < NS; ++i)
        PBT_EQ(sig[i]->num_slots(), n[i], where << ": connected slots of signal " << i);
    for (int i = 0; i < NH; ++i)
        PBT_EQ(con[i].c.connected(), con[i].s >= 0 && !slots[con[i].s].disconnected, where << ": handle " << i << " of slot #" << con[i].s);
    for (auto& p : sc)
        if (p.first)
            PBT_EQ(p.first->get().connected(), p.second >= 0 && !slots[p.second].disconnected, where << ": scoped handle of slot #" << p.second);
}

void property(pbt::Choices& c)
{
    Ctx x{c};
    g = &x;
    struct End
    {
        ~End() { g = nullptr; }
    } end;
    struct Cleanup
    { // also on failure: tear the pools down while the monitor still exists
        Ctx& x;
        bool done = false;
        void run(bool check)
        {
            if (done)
                return;
            done = true;
            x.closing = true;
            auto finish = [&](int i) {
                switch (i)
                {
                case 0:
                    for (auto& h : x.con)
                    {
                        int s = h.s;
                        h.s = -1;
                        auto v = std::move(h.c);
                        h.c = kl::connection{};
                        v = kl::connection{};
                        ref(s, -1);
                    }
                    break;
                case 1:
                    for (int k = 0; k < NSC; ++k)
                        x.drop_scoped(k);
                    break;
                case 2:
                    for (auto& b : x.bl)
                    {
                        int s = b.second;
                        b.second = -1;
                        auto p = std::move(b.first);
                        p.reset();
                        ref(s, -1);
                    }
                    break;
                default:
                    for (int k = 0; k < NS; ++k)
                    {
                        x.clear_marks(k);
                        for (auto& s : x.slots)
                            if (s.sig == k)
                                s.sig = -1;
                        x.sig[k].reset();
                    }
                    break;
                }
            };
            // handles may outlive their signals and the other way round
            bool signals_first = check && x.c.flip();
            if (signals_first)
                finish(3);
            finish(0);
            finish(1);
            finish(2);
            if (!signals_first)
                finish(3);
            if (!check)
                return;
            for (size_t i = 0; i < x.slots.size(); ++i)
            {
                PBT_CHECK(!x.slots[i].alive, "state of slot #" << i << " leaked: everything is destroyed");
                PBT_CHECK(x.slots[i].deaths == 1, "state of slot #" << i << " destroyed " << x.slots[i].deaths << " times");
            }
        }
        ~Cleanup()
        {
            try
            {
                run(false);
            }
            catch (...)
            {
            }
        }
    } cleanup{x};
    size_t n = 0;
    do
    {
        x.step();
        x.quiescent("after step");
    } while (++n < 60 && c.more(18));
    cleanup.run(true);
    if (x.died && x.token_owned)
        c.nontrivial();
}
