#include <cstdint>
#include "pbt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
#include <kl/signal.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <optional>

const char* const property_rule =
    "programs over 3 signals, 6 connection handles, 3 scoped connections and 3 blockers with slot scripts that re-enter "
    "the signals; executed by the library and by a list model, complete call/observation logs compared; non-trivial = some "
    "slot was called by an emission during which a slot edited connections, blocked, nested an emission, stopped or threw";

// ------------------------------------------------------------------------------ program
constexpr int NS = 3, NH = 6, NSC = 3, NB = 3, NO = 2;

enum class Op
{
    connect, disconnect, disconnect_cur, handle_copy, handle_move, handle_drop, handle_cur,
    scope, scope_reset, scope_move, scope_release, block, block_copy, unblock,
    emit, stop, throw_, clear, query, query_cur, swap_sig, move_sig, recreate_sig, kill_obj, count_
};
struct Act
{
    Op op;
    int a = 0, b = 0, d = 0, front = 0, catch_ = 1, n = 0;
    std::string s;
};
enum class Kind { lambda, plus_assign, empty, mem_ptr, mem_ref, cmem_ptr, cmem_ref, mem_shared, cmem_shared, mem_weak, cmem_weak, forward, stateful, count_ };
struct Def
{
    Kind kind = Kind::lambda;
    int target = 0; // forward target / weak object
    std::vector<Act> script;
};
struct Program
{
    bool forwards = false;
    std::vector<Def> defs;
    std::vector<Act> main;
};

struct Thrown { int id; };

struct Args { int n; std::string s; std::vector<int>* sink; };

// ------------------------------------------------------------------------------ interpreter
struct World;
struct Interp
{
    const Program& p;
    World& w;
    std::vector<std::string> log;
    int serial = 0, calls = 0, depth = 0;
    bool reentrant = false;
    Interp(const Program& p, World& w) : p(p), w(w) {}
    void act(const Act& a);
    void body(int serial, int def, const Args& a);
    void run();
    void note(std::string s) { log.push_back(std::move(s)); }
};

struct World
{
    Interp* in = nullptr;
    virtual ~World() = default;
    virtual void connect(int sig, int def, int serial, bool front, int h) = 0;
    virtual void disconnect(int h) = 0;
    virtual void disconnect_cur() = 0;
    virtual void handle_copy(int a, int b) = 0;
    virtual void handle_move(int a, int b) = 0;
    virtual void handle_drop(int a) = 0;
    virtual void handle_cur(int a) = 0;
    virtual void scope(int k, int h) = 0;
    virtual void scope_reset(int k) = 0;
    virtual void scope_move(int a, int b) = 0;
    virtual void scope_release(int k, int h) = 0;
    virtual void block(int k, int h, int how) = 0;
    virtual void block_copy(int a, int b) = 0;
    virtual void unblock(int k) = 0;
    virtual void emit(int sig, const Args&) = 0;
    virtual void stop() = 0;
    virtual void clear(int sig) = 0;
    virtual std::string query() = 0;
    virtual std::string query_cur() = 0;
    virtual void swap_sig(int a, int b) = 0;
    virtual void move_sig(int a, int b) = 0; // a = move(b); b cleared
    virtual void recreate_sig(int a, bool via_move) = 0;
    virtual void kill_obj(int k) = 0;
};

void Interp::act(const Act& a)
{
    const bool quiet = depth == 0;
    switch (a.op)
    {
    case Op::connect: {
        int sg = a.a, d = a.d;
        const Def& df = p.defs[d];
        if (df.kind == Kind::forward && df.target <= sg)
            return; // forwarders only go upwards, never in cycles
        w.connect(sg, d, ++serial, a.front, a.b);
        break;
    }
    case Op::disconnect: w.disconnect(a.b); break;
    case Op::disconnect_cur: w.disconnect_cur(); break;
    case Op::handle_copy: w.handle_copy(a.b, a.d % NH); break;
    case Op::handle_move:
        if (a.b != a.d % NH)
            w.handle_move(a.b, a.d % NH);
        break;
    case Op::handle_drop: w.handle_drop(a.b); break;
    case Op::handle_cur: w.handle_cur(a.b); break;
    case Op::scope: w.scope(a.a % NSC, a.b); break;
    case Op::scope_reset: w.scope_reset(a.a % NSC); break;
    case Op::scope_move:
        if (a.a % NSC != a.d % NSC)
            w.scope_move(a.a % NSC, a.d % NSC);
        break;
    case Op::scope_release: w.scope_release(a.a % NSC, a.b); break;
    case Op::block: w.block(a.a % NB, a.b, a.front); break;
    case Op::block_copy: w.block_copy(a.a % NB, a.d % NB); break;
    case Op::unblock: w.unblock(a.a % NB); break;
    case Op::emit: {
        if (depth >= 3)
            return;
        std::vector<int> sink;
        Args args{a.n, a.s, &sink};
        note("emit " + std::to_string(a.a));
        if (a.catch_ || quiet)
        {
            try
            {
                w.emit(a.a, args);
            }
            catch (const Thrown& t)
            {
                note("caught " + std::to_string(t.id));
            }
        }
        else
            w.emit(a.a, args);
        std::string r = "done";
        for (int x : sink)
            r += " " + std::to_string(x);
        note(r + " " + w.query_cur());
        break;
    }
    case Op::stop: w.stop(); break;
    case Op::throw_:
        if (depth)
            throw Thrown{a.n};
        break;
    case Op::clear: w.clear(a.a); break;
    case Op::query: note(w.query()); break;
    case Op::query_cur: note(w.query_cur()); break;
    case Op::swap_sig:
        if (quiet && !p.forwards)
            w.swap_sig(a.a, a.d % NS);
        break;
    case Op::move_sig:
        if (quiet && !p.forwards && a.a != a.d % NS)
            w.move_sig(a.a, a.d % NS);
        break;
    case Op::recreate_sig:
        if (quiet)
            w.recreate_sig(a.a, a.front && !p.forwards);
        break;
    case Op::kill_obj: w.kill_obj(a.a % NO); break;
    case Op::count_: break;
    }
}

void Interp::body(int ser, int def, const Args& a)
{
    std::string r = "call #" + std::to_string(ser) + " def" + std::to_string(def) + " n=" + std::to_string(a.n) + " s=" + a.s +
                    " sink=" + std::to_string(a.sink->size());
    note(r);
    a.sink->push_back(ser);
    if (++calls > 150)
        return;
    struct D
    {
        int& d;
        D(int& d) : d(d) { ++d; }
        ~D() { --d; }
    } guard{depth};
    for (auto& x : p.defs[def].script)
    {
        if (x.op != Op::query && x.op != Op::query_cur)
            reentrant = true;
        act(x);
    }
}

void Interp::run()
{
    w.in = this;
    for (auto& a : p.main)
    {
        act(a);
        note(w.query());
    }
}

// ------------------------------------------------------------------------------ the library
struct Obj
{
    Interp* in;
    int serial, def;
    void call(int n, std::string s, std::vector<int>& sink)
    {
        in->body(serial, def, {n, s, &sink});
        s = "mutated";
    }
    void ccall(int n, std::string s, std::vector<int>& sink) const { in->body(serial, def, {n, s, &sink}); }
};

struct Real : World
{
    using Sig = kl::signal<void(int, std::string, std::vector<int>&)>;
    // each signal in its own place; moving a signal gives it a new one
    std::array<std::unique_ptr<std::optional<Sig>>, NS> sig;
    Sig& at(int i) { return **sig[i]; }
    std::array<kl::connection, NH> con;
    std::array<std::optional<kl::scoped_connection>, NSC> sc;
    std::array<std::optional<kl::connection::blocker>, NB> bl;
    std::vector<std::unique_ptr<Obj>> objs;
    std::array<std::vector<std::shared_ptr<Obj>>, NO> weak_objs;

    Real()
    {
        for (auto& s : sig)
            s = std::make_unique<std::optional<Sig>>(std::in_place);
    }
    void connect(int sg, int def, int serial, bool front, int h) override
    {
        Sig& s = at(sg);
        auto at = front ? kl::at_front : kl::at_back;
        const Def& d = in->p.defs[def];
        auto I = in;
        auto mk = [&] {
            objs.push_back(std::make_unique<Obj>(Obj{in, serial, def}));
            return objs.back().get();
        };
        kl::connection c;
        switch (d.kind)
        {
        case Kind::lambda:
            c = s.connect([I, serial, def](int n, std::string st, std::vector<int>& sink) { I->body(serial, def, {n, st, &sink}); st.clear(); st.shrink_to_fit(); }, at);
            break;
        case Kind::stateful:
            c = s.connect([I, serial, def, k = 0](int n, const std::string& st, std::vector<int>& sink) mutable { ++k; I->body(serial, def, {n, st, &sink}); }, at);
            break;
        case Kind::plus_assign:
            c = (s += [I, serial, def](int n, std::string&& st, std::vector<int>& sink) { std::string t = std::move(st); I->body(serial, def, {n, t, &sink}); });
            break;
        case Kind::empty: c = s.connect(Sig::slot_type{}, at); break;
        case Kind::mem_ptr: c = s.connect(&Obj::call, mk(), at); break;
        case Kind::mem_ref: c = s.connect(&Obj::call, *mk(), at); break;
        case Kind::cmem_ptr: c = s.connect(&Obj::ccall, mk(), at); break;
        case Kind::cmem_ref: c = s.connect(&Obj::ccall, *mk(), at); break;
        case Kind::mem_shared: c = s.connect(&Obj::call, std::make_shared<Obj>(Obj{in, serial, def}), at); break;
        case Kind::cmem_shared: c = s.connect(&Obj::ccall, std::make_shared<const Obj>(Obj{in, serial, def}), at); break;
        case Kind::mem_weak:
        case Kind::cmem_weak: {
            auto o = std::make_shared<Obj>(Obj{in, serial, def});
            weak_objs[d.target % NO].push_back(o);
            if (d.kind == Kind::mem_weak)
                c = s.connect(&Obj::call, std::weak_ptr<Obj>{o}, at);
            else
                c = s.connect(&Obj::ccall, std::weak_ptr<const Obj>{o}, at);
            break;
        }
        case Kind::forward: c = s.connect(this->at(d.target), at); break;
        default: break;
        }
        con[h] = c;
    }
    void disconnect(int h) override { con[h].disconnect(); }
    void disconnect_cur() override { kl::this_signal::current_connection().disconnect(); }
    void handle_copy(int a, int b) override
    {
        const auto& src = con[b];
        con[a] = src;
    }
    void handle_move(int a, int b) override
    {
        con[a] = std::move(con[b]);
        con[b] = kl::connection{};
    }
    void handle_drop(int a) override { con[a] = kl::connection{}; }
    void handle_cur(int a) override { con[a] = kl::this_signal::current_connection(); }
    void scope(int k, int h) override
    {
        if (sc[k])
            *sc[k] = kl::scoped_connection{con[h]};
        else
            sc[k].emplace(con[h]);
    }
    void scope_reset(int k) override { sc[k].reset(); }
    void scope_move(int a, int b) override
    {
        if (!sc[b])
            sc[a].reset();
        else if (!sc[a])
            sc[a].emplace(std::move(*sc[b]));
        else
            *sc[a] = std::move(*sc[b]);
        sc[b].reset();
    }
    void scope_release(int k, int h) override
    {
        if (!sc[k])
            return;
        con[h] = sc[k]->release();
        sc[k].reset();
    }
    void block(int k, int h, int how) override
    {
        if (how)
            bl[k].emplace(con[h]);
        else if (bl[k])
            *bl[k] = con[h].get_blocker();
        else
            bl[k] = con[h].get_blocker();
    }
    void block_copy(int a, int b) override
    {
        if (a == b)
        {
            if (bl[a])
            {
                auto& self = *bl[a];
                *bl[a] = self;
            }
            return;
        }
        if (!bl[b])
            bl[a].reset();
        else if (bl[a])
            *bl[a] = *bl[b];
        else
            bl[a].emplace(*bl[b]);
    }
    void unblock(int k) override { bl[k].reset(); }
    void emit(int sg, const Args& a) override { at(sg)(a.n, a.s, *a.sink); }
    void stop() override { kl::this_signal::stop_emission(); }
    void clear(int sg) override { at(sg).disconnect_all_slots(); }
    std::string query() override
    {
        std::string r = "state";
        for (auto& s : sig)
            r += " " + std::to_string((*s)->num_slots()) + ((*s)->empty() ? "e" : "");
        r += " |";
        for (auto& x : con)
            r += x.connected() ? "C" : "-";
        r += " |";
        for (int i = 0; i < NH; ++i)
            for (int j = 0; j < i; ++j)
            {
                bool same = con[i] == con[j];
                r += same ? "=" : ".";
                if (same && (con[i].hash() != con[j].hash() || con[i] < con[j] || con[j] < con[i]))
                    r += "!hash/order of equal handles";
                if (!same && (con[i] < con[j]) == (con[j] < con[i]))
                    r += "!order of different handles";
            }
        r += " |";
        for (auto& x : sc)
            r += x && x->get().connected() ? "S" : "-";
        for (int i = 0; i < NSC; ++i)
            for (int j = 0; j <= i; ++j)
            {
                if (!sc[i] || !sc[j])
                    continue;
                const bool same = *sc[i] == *sc[j];
                r += same ? "=" : ".";
                const bool lt = *sc[i] < *sc[j], gt = *sc[j] < *sc[i];
                if (same ? lt || gt : lt == gt)
                    r += "!order of scoped connections";
                if (lt != (sc[i]->get() < sc[j]->get()))
                    r += "!order differs from the handles'";
            }
        r += " |";
        for (auto& x : bl)
            r += x && x->blocking() ? "B" : "-";
        return r;
    }
    std::string query_cur() override
    {
        auto cur = kl::this_signal::current_connection();
        std::string r = cur == kl::connection{} ? "cur none" : "cur ";
        r += cur.connected() ? "C" : "-";
        for (auto& x : con)
            r += (x == cur) ? "=" : ".";
        return r;
    }
    void swap_sig(int a, int b) override { swap(at(a), at(b)); }
    void move_sig(int a, int b) override
    {
        at(a) = std::move(at(b));
        at(b).disconnect_all_slots();
    }
    void recreate_sig(int a, bool via_move) override
    {
        if (via_move)
        { // move construction carries the slots along
            auto moved = std::make_unique<std::optional<Sig>>(std::in_place, std::move(at(a)));
            sig[a] = std::move(moved);
        }
        else
            sig[a]->emplace();
    }
    void kill_obj(int k) override { weak_objs[k].clear(); }
};

// ------------------------------------------------------------------------------ the model
struct Model : World
{
    struct Slot
    {
        int def, serial, sig;
        bool connected = true;
        int blocks = 0;
        int running = 0;
        bool dead_obj = false; // weak instance expired
    };
    std::vector<Slot> slots;
    std::array<std::vector<int>, NS> order;
    std::array<int, NH> con;
    std::array<int, NSC> sc; // -2 none, -1 empty, else slot
    std::array<int, NB> bl;  // -1 none
    std::array<std::vector<int>, NO> weak;
    struct Frame
    {
        bool stopped = false;
        int cur = -1;
    };
    std::vector<Frame> frames;

    Model()
    {
        con.fill(-1);
        sc.fill(-2);
        bl.fill(-1);
    }
    void disc(int s)
    {
        if (s >= 0)
            slots[s].connected = false;
    }
    void connect(int sg, int def, int serial, bool front, int h) override
    {
        const Def& d = in->p.defs[def];
        if (d.kind == Kind::empty)
        {
            con[h] = -1;
            return;
        }
        int id = static_cast<int>(slots.size());
        slots.push_back({def, serial, sg});
        if (d.kind == Kind::mem_weak || d.kind == Kind::cmem_weak)
            weak[d.target % NO].push_back(id);
        if (front && d.kind != Kind::plus_assign)
            order[sg].insert(order[sg].begin(), id);
        else
            order[sg].push_back(id);
        con[h] = id;
    }
    void disconnect(int h) override
    {
        disc(con[h]);
        con[h] = -1;
    }
    int cur() { return frames.empty() ? -1 : frames.back().cur; }
    void disconnect_cur() override { disc(cur()); }
    void handle_copy(int a, int b) override { con[a] = con[b]; }
    void handle_move(int a, int b) override
    {
        con[a] = con[b];
        con[b] = -1;
    }
    void handle_drop(int a) override { con[a] = -1; }
    void handle_cur(int a) override { con[a] = cur(); }
    void scope(int k, int h) override
    {
        int nw = con[h];
        int old = sc[k];
        sc[k] = nw;
        if (old >= 0)
            disc(old);
    }
    void scope_reset(int k) override
    {
        disc(sc[k]);
        sc[k] = -2;
    }
    void scope_move(int a, int b) override
    {
        int old = sc[a];
        sc[a] = sc[b];
        sc[b] = -2;
        disc(old);
    }
    void scope_release(int k, int h) override
    {
        if (sc[k] == -2)
            return;
        con[h] = sc[k];
        sc[k] = -2;
    }
    void set_bl(int k, int s)
    {
        if (s >= 0)
            ++slots[s].blocks;
        if (bl[k] >= 0)
            --slots[bl[k]].blocks;
        bl[k] = s;
    }
    void block(int k, int h, int) override { set_bl(k, con[h]); }
    void block_copy(int a, int b) override { set_bl(a, bl[b]); }
    void unblock(int k) override { set_bl(k, -1); }
    void emit(int sg, const Args& a) override
    {
        struct F
        {
            std::vector<Frame>& f;
            ~F() { f.pop_back(); }
        };
        std::vector<int> todo;
        for (int s : order[sg])
            if (slots[s].connected)
                todo.push_back(s);
        // an emission without slots never has a current slot of its own
        frames.push_back({false, cur()});
        F pop{frames};
        size_t me = frames.size() - 1;
        for (int s : todo)
        {
            if (!slots[s].connected || slots[s].blocks > 0)
                continue;
            frames[me].cur = s;
            const Def& d = in->p.defs[slots[s].def];
            if (d.kind == Kind::forward)
                emit(d.target, a);
            else if (!slots[s].dead_obj || slots[s].running > 0) // a running call keeps a weak instance alive
            {
                struct R
                {
                    Model& m;
                    int s;
                    R(Model& m, int s) : m(m), s(s) { ++m.slots[s].running; }
                    ~R() { --m.slots[s].running; }
                } r{*this, s};
                in->body(slots[s].serial, slots[s].def, a);
            }
            if (frames[me].stopped)
                break;
        }
    }
    void stop() override
    {
        if (!frames.empty())
            frames.back().stopped = true;
    }
    void clear(int sg) override
    {
        for (int s : order[sg])
            disc(s);
    }
    std::string query() override
    {
        std::string r = "state";
        for (auto& o : order)
        {
            size_t n = 0;
            for (int s : o)
                n += slots[s].connected;
            r += " " + std::to_string(n) + (n == 0 ? "e" : "");
        }
        r += " |";
        for (int x : con)
            r += x >= 0 && slots[x].connected ? "C" : "-";
        r += " |";
        for (int i = 0; i < NH; ++i)
            for (int j = 0; j < i; ++j)
                r += con[i] == con[j] ? "=" : ".";
        r += " |";
        for (int x : sc)
            r += x >= 0 && slots[x].connected ? "S" : "-";
        for (int i = 0; i < NSC; ++i)
            for (int j = 0; j <= i; ++j)
                if (sc[i] != -2 && sc[j] != -2)
                    r += sc[i] == sc[j] ? "=" : ".";
        r += " |";
        for (int x : bl)
            r += x >= 0 ? "B" : "-";
        return r;
    }
    std::string query_cur() override
    {
        int cu = cur();
        std::string r = cu < 0 ? "cur none" : "cur ";
        r += cu >= 0 && slots[cu].connected ? "C" : "-";
        for (int x : con)
            r += x == cu ? "=" : ".";
        return r;
    }
    void swap_sig(int a, int b) override { std::swap(order[a], order[b]); }
    void move_sig(int a, int b) override
    {
        if (a == b)
            return;
        clear(a);
        order[a] = order[b];
        order[b].clear();
    }
    void recreate_sig(int a, bool via_move) override
    {
        if (via_move)
            return;
        clear(a);
        order[a].clear();
    }
    void kill_obj(int k) override
    {
        for (int s : weak[k])
            slots[s].dead_obj = true;
        weak[k].clear();
    }
};

// ------------------------------------------------------------------------------ generation
static Act gen_act(pbt::Choices& c, bool inner, int ndefs)
{
    static const Op inner_ops[] = {Op::query, Op::connect, Op::disconnect, Op::disconnect_cur, Op::emit, Op::stop, Op::block, Op::unblock,
                                   Op::throw_, Op::clear, Op::query_cur, Op::handle_cur, Op::handle_copy, Op::scope, Op::scope_reset,
                                   Op::kill_obj, Op::handle_drop, Op::block_copy, Op::scope_move, Op::scope_release, Op::handle_move, Op::connect, Op::emit, Op::disconnect};
    static const Op main_ops[] = {Op::emit, Op::connect, Op::connect, Op::connect, Op::emit, Op::disconnect, Op::block, Op::unblock, Op::query_cur,
                                  Op::handle_copy, Op::handle_move, Op::handle_drop, Op::scope, Op::scope_reset, Op::scope_move,
                                  Op::scope_release, Op::block_copy, Op::clear, Op::swap_sig, Op::move_sig, Op::recreate_sig, Op::kill_obj, Op::stop,
                                  Op::connect, Op::emit, Op::connect, Op::disconnect_cur, Op::handle_cur};
    Act a;
    a.op = inner ? c.pick(inner_ops) : c.pick(main_ops);
    a.a = static_cast<int>(c.below(c.chance(1, 2) ? 1 : NS));
    a.b = static_cast<int>(c.below(NH));
    a.d = static_cast<int>(c.below(a.op == Op::connect ? ndefs : 6));
    a.front = c.chance(1, 3);
    a.catch_ = !c.chance(1, 3);
    if (a.op == Op::emit || a.op == Op::throw_)
    {
        a.n = static_cast<int>(c.draw(50));
        if (c.flip())
            a.s = std::string(c.below(40), static_cast<char>('a' + c.below(4)));
    }
    return a;
}

static Program gen_program(pbt::Choices& c)
{
    Program p;
    p.forwards = c.chance(1, 3);
    int nd = 1 + static_cast<int>(c.below(5));
    for (int i = 0; i < nd; ++i)
    {
        Def d;
        d.kind = c.chance(1, 2) ? Kind::lambda : static_cast<Kind>(c.below(static_cast<int>(Kind::count_)));
        if (d.kind == Kind::forward && !p.forwards)
            d.kind = Kind::lambda;
        d.target = 1 + static_cast<int>(c.below(NS - 1));
        if (c.chance(2, 3))
            do
                d.script.push_back(gen_act(c, true, nd));
            while (d.script.size() < 6 && c.more(1));
        p.defs.push_back(std::move(d));
    }
    // a few slots to begin with
    size_t k = c.below(6);
    for (size_t i = 0; i < k; ++i)
    {
        Act a{Op::connect};
        a.a = static_cast<int>(c.below(c.chance(1, 2) ? 1 : NS));
        a.b = static_cast<int>(i % NH);
        a.d = static_cast<int>(c.below(nd));
        a.front = c.chance(1, 4);
        p.main.push_back(a);
    }
    do
        p.main.push_back(gen_act(c, false, nd));
    while (p.main.size() < 40 && c.more(10));
    Act e{Op::emit};
    e.s = "final";
    for (e.a = 0; e.a < NS; ++e.a)
        p.main.push_back(e);
    return p;
}

static const char* op_name(Op o)
{
    static const char* n[] = {"connect", "disconnect", "disconnect_cur", "handle_copy", "handle_move", "handle_drop", "handle_cur",
                              "scope", "scope_reset", "scope_move", "scope_release", "block", "block_copy", "unblock",
                              "emit", "stop", "throw", "clear", "query", "query_cur", "swap_sig", "move_sig", "recreate_sig", "kill_obj"};
    return n[static_cast<int>(o)];
}

static void show(pbt::Choices& c, const Program& p)
{
    if (!c.verbose)
        return;
    auto one = [&](const Act& a) {
        c.out << op_name(a.op) << "(a=" << a.a << " b=" << a.b << " d=" << a.d << (a.front ? " front" : "") << (a.catch_ ? "" : " nocatch") << ") ";
    };
    c.out << "forwards=" << p.forwards << "\n";
    for (size_t i = 0; i < p.defs.size(); ++i)
    {
        c.out << "def" << i << " kind " << static_cast<int>(p.defs[i].kind) << " target " << p.defs[i].target << ": ";
        for (auto& a : p.defs[i].script)
            one(a);
        c.out << "\n";
    }
    c.out << "main: ";
    for (auto& a : p.main)
        one(a);
    c.out << "\n";
}

// ------------------------------------------------------------------------------ scale
// hundreds (rarely tens of thousands) of slots, handles, blockers or nested emissions
static void scale_case(pbt::Choices& c)
{
    static const size_t around[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513}, wide[] = {32768, 65535, 65536, 65537};
    const bool far = c.chance(1, 6);
    const size_t n = far ? c.pick(wide) : c.pick(around);
    const unsigned what = static_cast<unsigned>(c.below(4));
    const size_t stride = 2 + c.below(9), at = c.below(stride);
    c.log() << "scale case " << what << " n=" << n << " stride=" << stride << " at=" << at << "\n";
    c.label("scale");
    c.nontrivial();
    kl::signal<void(int)> sig;
    std::vector<size_t> order;
    switch (what)
    {
    case 0: { // many slots; a share of them at the front; a share of them disconnected
        std::vector<kl::connection> con;
        std::vector<size_t> front, back;
        for (size_t i = 0; i < n; ++i)
        {
            const bool f = i % 3 == at % 3;
            con.push_back(sig.connect([&order, i](int) { order.push_back(i); }, f ? kl::at_front : kl::at_back));
            (f ? front : back).push_back(i);
        }
        PBT_EQ(sig.num_slots(), n, "number of slots");
        std::vector<size_t> want(front.rbegin(), front.rend());
        want.insert(want.end(), back.begin(), back.end());
        sig(1);
        PBT_CHECK(order == want, "order of " << n << " slots, " << order.size() << " called");
        if (far)
        { // disconnecting one by one is quadratic: drop a stretch at the list's start
            for (size_t i = 0; i < 300; ++i)
                con[want[i]].disconnect();
            want.erase(want.begin(), want.begin() + 300);
        }
        else
        {
            for (size_t i = at; i < n; i += stride)
                con[i].disconnect();
            want.erase(std::remove_if(want.begin(), want.end(), [&](size_t i) { return i >= at && (i - at) % stride == 0; }), want.end());
        }
        order.clear();
        PBT_EQ(sig.num_slots(), want.size(), "number of slots after disconnecting");
        sig(2);
        PBT_CHECK(order == want, "order after disconnecting some of " << n << " slots, " << order.size() << " called");
        auto tail = sig.connect([&order](int) { order.push_back(~size_t{0}); });
        want.push_back(~size_t{0});
        order.clear();
        sig(3);
        PBT_CHECK(order == want, "order after connecting again");
        sig.disconnect_all_slots();
        order.clear();
        sig(4);
        PBT_CHECK(order.empty() && sig.empty() && !tail.connected() && !con[n - 1].connected(), "slots left after disconnect_all_slots");
        break;
    }
    case 1: { // many blockers of one slot: it stays blocked until the last one is gone
        auto con = sig.connect([&order](int v) { order.push_back(static_cast<size_t>(v)); });
        std::vector<kl::connection::blocker> bl;
        for (size_t i = 0; i < n; ++i)
            if (bl.empty() || i % stride)
                bl.push_back(con.get_blocker());
            else
                bl.push_back(bl.back());
        sig(1);
        while (!bl.empty())
        {
            PBT_CHECK(order.empty(), "slot called although " << bl.size() << " blockers exist");
            bl.pop_back();
            if (bl.size() < 3 || bl.size() % 64 == 0)
                sig(static_cast<int>(bl.size()));
        }
        PBT_CHECK(order == std::vector<size_t>{0}, "slot not called after the last of " << n << " blockers is gone");
        break;
    }
    case 2: { // many handles of one slot
        auto token = std::make_shared<int>(0);
        auto con = sig.connect([&order, token](int v) { order.push_back(static_cast<size_t>(v)); });
        std::vector<kl::connection> copies(n, con);
        PBT_CHECK(con.connected() && copies.back().connected() && copies[0] == con, "copies of a connection");
        copies.resize(at);
        sig(7);
        PBT_CHECK(order == std::vector<size_t>{7} && sig.num_slots() == 1, "slot lost after dropping handles");
        copies.assign(n, con);
        copies[at].disconnect();
        PBT_CHECK(!con.connected() && !copies[0].connected() && !copies[n - 1].connected() && sig.empty(), "disconnected through one of " << n << " handles");
        sig(8);
        PBT_EQ(order.size(), size_t{1}, "disconnected slot called");
        copies.clear();
        con = kl::connection{};
        PBT_EQ(token.use_count(), 1L, "slot not destroyed once disconnected and without handles");
        break;
    }
    default: { // deeply nested emissions, edits at the bottom
        const size_t deep = std::min<size_t>(n, 513);
        std::vector<kl::connection> con(3);
        con[0] = sig.connect([&](int d) {
            order.push_back(static_cast<size_t>(d));
            if (static_cast<size_t>(d) < deep)
                sig(d + 1);
            else
            {
                con[1].disconnect();
                con[2] = sig.connect([&](int) { order.push_back(1000); });
            }
        });
        con[1] = sig.connect([&](int) { order.push_back(999); });
        sig(1);
        std::vector<size_t> want;
        for (size_t d = 1; d <= deep; ++d)
            want.push_back(d);
        PBT_CHECK(order == want, "calls of " << deep << " nested emissions: " << order.size());
        con[0].disconnect();
        order.clear();
        PBT_EQ(sig.num_slots(), size_t{1}, "slots after the nested emissions");
        sig(1);
        PBT_CHECK(order == std::vector<size_t>{1000}, "emission after the nested emissions");
        break;
    }
    }
}

// Moving or swapping a signal during its emission ends the program (documented), however deep the emission is nested
// and whichever operand is being emitted. Run in a child process.
static void death_case(pbt::Choices& c)
{
    using S = kl::signal<void(int)>;
    const unsigned how = static_cast<unsigned>(c.below(5));
    const unsigned depth = static_cast<unsigned>(c.below(3)), others = static_cast<unsigned>(c.below(3));
    const bool after = c.flip(), drop = c.flip();
    c.log() << "forbidden move " << how << " in emission, depth " << depth << " others " << others << " nested done " << after << "\n";
    c.label("move during emission");
    c.nontrivial();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        std::set_terminate([] { _exit(77); });
        ::signal(SIGABRT, [](int) { _exit(77); });
        if (!freopen("/dev/null", "w", stderr))
            _exit(3);
        S a, b;
        kl::connection con;
        con = a.connect([&](int d) {
            if (drop)
                con.disconnect();
            if (d > 0)
            {
                a(d - 1);
                return;
            }
            if (d < 0)
                return;
            if (after)
                a(-1);
            switch (how)
            {
            case 0: { S t{std::move(a)}; break; }
            case 1: b = std::move(a); break;
            case 2: a = std::move(b); break;
            case 3: swap(a, b); break;
            default: swap(b, a);
            }
            _exit(5);
        });
        for (unsigned i = 0; i < others; ++i)
            b.connect([](int) {});
        a(drop ? 0 : static_cast<int>(depth));
        _exit(6);
    }
    PBT_CHECK(pid > 0, "fork");
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 77, "moving a signal during its emission did not end the program (status " << st << ")");
}

void property(pbt::Choices& c)
{
    if (c.chance(1, 400))
        return scale_case(c);
    if (c.chance(1, 1000))
        return death_case(c);
    Program p = gen_program(c);
    show(c, p);
    Model m;
    Interp im{p, m};
    im.run();
    bool called = im.calls > 0;
    c.label_if(im.reentrant, "slot re-enters");
    c.label_if(im.calls > 150, "call budget reached");
    if (called && im.reentrant)
        c.nontrivial();

    Real r;
    Interp ir{p, r};
    ir.run();
    size_t n = std::min(im.log.size(), ir.log.size());
    for (size_t i = 0; i < n; ++i)
        PBT_CHECK(ir.log[i] == im.log[i], "log entry " << i << ": library \"" << ir.log[i] << "\" model \"" << im.log[i] << "\" after \""
                                                         << (i ? ir.log[i - 1] : std::string{}) << "\"");
    PBT_EQ(ir.log.size(), im.log.size(), "log length");
    for (auto& s : im.log)
    {
        c.label_if(s.rfind("caught", 0) == 0, "slot threw");
        c.label_if(s.rfind("emit", 0) == 0, "emission");
    }
}
