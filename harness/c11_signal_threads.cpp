#include <cstdint>
#include "pbt.hpp"
#include <kl/signal.hpp>
#include <array>
#include <atomic>
#include <memory>
#include <thread>

const char* const property_rule =
    "2..4 thread programs of connect (front/back), disconnect (own, shared, from inside a slot), block/unblock, emit (also nested), query "
    "with injected spins and yields, each run several times; every event is stamped on one global clock and the history is checked "
    "against interval rules; non-trivial = some emission overlapped in time with a connection, disconnection or blocking by another thread";

using Sig = kl::signal<void(int)>;
constexpr int SHARED = 4, MAXSLOT = 64, OWN = 4;

enum class Op { emit, connect, disconnect, disconnect_shared, block, unblock, query, drop, copy_disconnect, block_shared };
struct Act
{
    Op op;
    int k = 0;
    bool front = false;
    int mode = 0; // slot behaviour when connecting
    int spin = 0; // before the operation
};

// ---- one recorded history -----------------------------------------------------------------
struct SlotRec
{
    bool used = false, front = false;
    uint64_t con_b = 0, con_e = 0;
};
struct Iv { int slot; uint64_t b, e; };           // disconnect call or blocked period (outer / inner stamps)
struct BlockIv { int slot; uint64_t b_in, e_in, b_out, e_out; };
struct Emit
{
    uint64_t b, e;
    bool complete = true; // not stopped
    std::vector<std::pair<int, uint64_t>> calls;
};
struct ThreadRec
{
    std::vector<Iv> discs;
    std::vector<BlockIv> blocks;
    std::vector<Emit> emits;
};

struct Run
{
    std::atomic<uint64_t> clock{1};
    std::atomic<int> tokens{0}, next{0};
    std::array<SlotRec, MAXSLOT> slots;
    Sig sig;
    uint64_t now() { return clock.fetch_add(1); }
};

static thread_local ThreadRec* t_rec = nullptr;
static thread_local std::vector<size_t>* t_stack = nullptr; // indices of running emissions

struct Token
{
    Run* r;
    explicit Token(Run* r) : r(r) { ++r->tokens; }
    ~Token() { --r->tokens; }
};

static void spin(int n)
{
    if (n == 0)
        return;
    if (n == 1)
    {
        std::this_thread::yield();
        return;
    }
    for (volatile int i = 0; i < n * 20; i = i + 1)
    {
    }
}

static void emit(Run& r, int depth)
{
    ThreadRec& t = *t_rec;
    size_t me = t.emits.size();
    t.emits.push_back({});
    t_stack->push_back(me);
    t.emits[me].b = r.now();
    r.sig(depth);
    t_rec->emits[me].e = r.now();
    t_stack->pop_back();
}

struct Body
{
    Run* r;
    int id, mode;
    std::shared_ptr<Token> tok;
    void operator()(int depth) const
    {
        ThreadRec& t = *t_rec;
        size_t me = t_stack->back();
        t.emits[me].calls.push_back({id, r->now()});
        switch (mode)
        {
        case 1: spin(1); break;
        case 2: spin(10); break;
        case 3: { // disconnects itself
            uint64_t b = r->now();
            kl::this_signal::current_connection().disconnect();
            uint64_t e = r->now();
            t_rec->discs.push_back({id, b, e});
            break;
        }
        case 4:
            if (depth > 0)
                emit(*r, depth - 1);
            break;
        case 5:
            t.emits[me].complete = false;
            kl::this_signal::stop_emission();
            break;
        default: break;
        }
    }
};

static int do_connect(Run& r, bool front, int mode, kl::connection& out)
{
    int id = r.next.fetch_add(1);
    if (id >= MAXSLOT)
        return -1;
    auto& s = r.slots[id];
    s.used = true;
    s.front = front;
    s.con_b = r.now();
    out = r.sig.connect(Body{&r, id, mode, std::make_shared<Token>(&r)}, front ? kl::at_front : kl::at_back);
    s.con_e = r.now();
    return id;
}

static void thread_main(Run& r, const std::vector<Act>& prog, ThreadRec& rec, std::array<kl::connection, SHARED> shared, std::atomic<int>& gate,
                        std::vector<kl::connection>& leftovers)
{
    t_rec = &rec;
    std::vector<size_t> stack;
    t_stack = &stack;
    std::array<std::pair<kl::connection, int>, OWN> own;
    for (auto& o : own)
        o.second = -1;
    struct B
    {
        std::unique_ptr<kl::connection::blocker> b;
        int slot = -1;
        uint64_t t1 = 0, t2 = 0;
    };
    std::array<B, 2> bl;
    auto end_block = [&](B& b) {
        if (!b.b)
            return;
        uint64_t e1 = r.now();
        b.b.reset();
        uint64_t e2 = r.now();
        if (b.slot >= 0)
            rec.blocks.push_back({b.slot, b.t2, e1, b.t1, e2});
        b.slot = -1;
    };
    gate.fetch_sub(1);
    while (gate.load() > 0)
    {
    }
    for (auto& a : prog)
    {
        spin(a.spin);
        switch (a.op)
        {
        case Op::emit: emit(r, 2); break;
        case Op::connect: {
            auto& o = own[a.k % OWN];
            int id = do_connect(r, a.front, a.mode, o.first);
            if (id >= 0)
                o.second = id;
            break;
        }
        case Op::disconnect: {
            auto& o = own[a.k % OWN];
            uint64_t b = r.now();
            o.first.disconnect();
            uint64_t e = r.now();
            if (o.second >= 0)
                rec.discs.push_back({o.second, b, e});
            o.second = -1;
            break;
        }
        case Op::disconnect_shared: {
            uint64_t b = r.now();
            shared[a.k % SHARED].disconnect();
            uint64_t e = r.now();
            rec.discs.push_back({a.k % SHARED, b, e});
            break;
        }
        case Op::copy_disconnect: {
            auto& o = own[a.k % OWN];
            kl::connection copy = o.first;
            uint64_t b = r.now();
            {
                kl::scoped_connection sc{std::move(copy)};
            }
            uint64_t e = r.now();
            if (o.second >= 0)
                rec.discs.push_back({o.second, b, e});
            break;
        }
        case Op::block:
        case Op::block_shared: {
            B& b = bl[a.k % 2];
            end_block(b);
            kl::connection& src = a.op == Op::block ? own[a.k % OWN].first : shared[a.k % SHARED];
            int id = a.op == Op::block ? own[a.k % OWN].second : a.k % SHARED;
            if (!(src == kl::connection{}))
            {
                b.t1 = r.now();
                b.b = std::make_unique<kl::connection::blocker>(src.get_blocker());
                b.t2 = r.now();
                b.slot = id;
            }
            break;
        }
        case Op::unblock: end_block(bl[a.k % 2]); break;
        case Op::query:
            (void)r.sig.num_slots();
            (void)r.sig.empty();
            (void)own[a.k % OWN].first.connected();
            (void)shared[a.k % SHARED].connected();
            break;
        case Op::drop: // the slot stays connected, the handle goes
            own[a.k % OWN].first = kl::connection{};
            own[a.k % OWN].second = -1;
            break;
        }
    }
    for (auto& b : bl)
        end_block(b);
    for (auto& o : own)
        leftovers.push_back(o.first);
    t_rec = nullptr;
    t_stack = nullptr;
}

static void check(pbt::Choices& c, Run& r, const std::vector<ThreadRec>& th, const std::vector<int>& initial, bool& overlap)
{
    int n = std::min<int>(r.next.load(), MAXSLOT);
    std::vector<uint64_t> disc_b(n, UINT64_MAX), disc_e(n, UINT64_MAX); // first start, first completion
    for (auto& t : th)
        for (auto& d : t.discs)
        {
            disc_b[d.slot] = std::min(disc_b[d.slot], d.b);
            disc_e[d.slot] = std::min(disc_e[d.slot], d.e);
        }
    // must a come before b in any emission that calls both?
    auto before = [&](int a, int b) {
        const auto &x = r.slots[a], &y = r.slots[b];
        if (x.front && !y.front)
            return true;
        if (!x.front && !y.front)
            return x.con_e < y.con_b;
        if (x.front && y.front)
            return y.con_e < x.con_b;
        return false;
    };
    for (size_t ti = 0; ti < th.size(); ++ti)
        for (auto& e : th[ti].emits)
        {
            std::vector<int> count(n, 0);
            for (auto& [s, at] : e.calls)
            {
                ++count[s];
                PBT_CHECK(disc_e[s] > e.b, "slot " << s << " called at " << at << " by an emission that started at " << e.b << " after its disconnection completed at "
                                                   << disc_e[s]);
            }
            if (!e.calls.empty())
                for (auto& [s, at] : e.calls)
                    PBT_CHECK(r.slots[s].con_b < e.calls[0].second, "slot " << s << " connected at " << r.slots[s].con_b
                                                                            << " during an emission (first call at " << e.calls[0].second << ") was called by it");
            for (size_t i = 0; i < e.calls.size(); ++i)
                for (size_t j = i + 1; j < e.calls.size(); ++j)
                    PBT_CHECK(!before(e.calls[j].first, e.calls[i].first), "slot " << e.calls[i].first << " called before slot " << e.calls[j].first
                                                                                    << " against connection order");
            for (int s = 0; s < n; ++s)
            {
                PBT_CHECK(count[s] <= 1, "slot " << s << " called " << count[s] << " times by one emission");
                if (!r.slots[s].used)
                    continue;
                bool maybe_blocked = false, blocked_all = false;
                for (auto& t : th)
                    for (auto& b : t.blocks)
                        if (b.slot == s)
                        {
                            if (b.b_out < e.e && b.e_out > e.b)
                                maybe_blocked = true;
                            if (b.b_in < e.b && b.e_in > e.e)
                                blocked_all = true;
                        }
                if (blocked_all)
                    PBT_CHECK(count[s] == 0, "slot " << s << " called although blocked for the whole emission");
                if (e.complete && r.slots[s].con_e < e.b && disc_b[s] > e.e && !maybe_blocked)
                    PBT_CHECK(count[s] == 1, "slot " << s << " connected since " << r.slots[s].con_e << " not called by emission [" << e.b << "," << e.e << "]");
                bool edit = (r.slots[s].con_e > e.b && r.slots[s].con_b < e.e) || (disc_b[s] != UINT64_MAX && disc_e[s] > e.b && disc_b[s] < e.e) || maybe_blocked;
                if (edit)
                    overlap = true;
            }
        }
    size_t left = 0;
    for (int s = 0; s < n; ++s)
        if (r.slots[s].used && disc_b[s] == UINT64_MAX)
            ++left;
    PBT_EQ(r.sig.num_slots(), left, "connected slots after all threads stopped");
    PBT_CHECK(r.tokens.load() >= static_cast<int>(left), "state of a connected slot destroyed");
    (void)initial;
}

void property(pbt::Choices& c)
{
    size_t nt = 2 + c.below(3);
    std::vector<std::pair<bool, int>> init;
    for (int i = 0; i < SHARED; ++i)
        init.push_back({c.chance(1, 4), static_cast<int>(c.draw(6))});
    // stopping slots make emissions inconclusive: keep them rare
    for (auto& x : init)
        if (x.second == 5 && !c.chance(1, 4))
            x.second = 0;
    std::vector<std::vector<Act>> progs(nt);
    static const Op ops[] = {Op::emit, Op::connect, Op::disconnect, Op::disconnect_shared, Op::block, Op::unblock, Op::query, Op::drop, Op::copy_disconnect,
                             Op::block_shared, Op::emit, Op::connect, Op::emit, Op::disconnect};
    for (size_t t = 0; t < nt; ++t)
    {
        c.log() << "thread " << t << ":";
        do
        {
            Act a;
            a.op = c.pick(ops);
            a.k = static_cast<int>(c.draw(4));
            a.front = c.chance(1, 4);
            a.mode = static_cast<int>(c.draw(5));
            a.spin = c.flip() ? 0 : static_cast<int>(c.draw(6));
            progs[t].push_back(a);
            c.log() << " " << static_cast<int>(a.op) << "/" << a.k;
        } while (progs[t].size() < 12 && c.more(6));
        c.log() << "\n";
    }
    bool handles_first = c.flip();
    bool overlap = false;
    for (int rep = 0; rep < 4; ++rep)
    {
        std::atomic<int> tokens_left{0};
        {
            auto r = std::make_unique<Run>();
            std::array<kl::connection, SHARED> shared;
            std::vector<int> initial;
            for (int i = 0; i < SHARED; ++i)
                initial.push_back(do_connect(*r, init[i].first, init[i].second, shared[i]));
            std::vector<ThreadRec> recs(nt);
            std::vector<std::vector<kl::connection>> left(nt);
            std::atomic<int> gate{static_cast<int>(nt)};
            std::vector<std::thread> ts;
            for (size_t t = 0; t < nt; ++t)
                ts.emplace_back([&, t] { thread_main(*r, progs[t], recs[t], shared, gate, left[t]); });
            for (auto& t : ts)
                t.join();
            // one more emission, alone: it must be complete and exact
            recs.emplace_back();
            std::vector<size_t> stack;
            t_rec = &recs.back();
            t_stack = &stack;
            emit(*r, 0);
            t_rec = nullptr;
            t_stack = nullptr;
            check(c, *r, recs, initial, overlap);
            if (handles_first)
            {
                left.clear();
                shared = {};
                // only connected slots keep their state now
                PBT_EQ(static_cast<size_t>(r->tokens.load()), r->sig.num_slots(), "slot states alive without handles");
                r->sig.disconnect_all_slots();
            }
            else
            {
                r->sig.disconnect_all_slots();
                left.clear();
                shared = {};
            }
            PBT_EQ(r->tokens.load(), 0, "slot states leaked");
        }
    }
    if (overlap)
        c.nontrivial();
}
