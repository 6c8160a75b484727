// C30: work on separate objects, and reading one shared constant object, is safe and unaffected by other threads.
// Every case runs in a child process of its own, so that everything the library sets up on first use is set up by
// concurrent threads; the same jobs run alone afterwards are the oracle.
#include "json_checks.hpp"
#include "resource_common.hpp"

#include <kl/base64.hpp>
#include <kl/binary_rw.hpp>
#include <kl/binary_rw/map.hpp>
#include <kl/binary_rw/string.hpp>
#include <kl/binary_rw/vector.hpp>
#include <kl/exception_info.hpp>
#include <kl/file_view.hpp>
#include <kl/hash.hpp>
#include <kl/path.hpp>
#include <kl/signal.hpp>
#include <kl/split.hpp>
#include <kl/stream_join.hpp>
#include <kl/zip.hpp>
#include <kl/enum_range.hpp>

#include <atomic>
#include <cerrno>
#include <fstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

const char* const property_rule =
    "non-trivial: two or more threads run jobs of the same kind (they share first uses or a constant object)";

namespace {

using Job = std::function<std::string()>;
// Called once per thread before the threads start; what it captures by shared_ptr is shared by the threads.
using Topic = std::function<Job()>;

const jt::Types& all_types()
{
    static jt::Types ts = [] {
        jt::Types t = jt::plain_types();
        for (auto& x : jt::attr_types())
            t.push_back(x);
        return t;
    }();
    return ts;
}

template <typename F>
std::string guarded(F&& f)
{
    try
    {
        return f();
    }
    catch (const kl::serialization::deserialize_error& e)
    {
        return std::string("deserialize_error ") + e.what();
    }
    catch (const std::exception& e)
    {
        return std::string("exception ") + e.what();
    }
}

std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        r += "0123456789abcdef"[ch >> 4];
        r += "0123456789abcdef"[ch & 15];
    }
    return r;
}

struct tag_n
{
    using type = int;
};
struct tag_s
{
    using type = std::string;
};
struct opaque
{
    unsigned char b[3];
};
struct tag_o
{
    using type = opaque;
};

struct Fixture
{
    std::string file;
};

Topic json_topic(pbt::Choices& c)
{
    auto& t = jt::pick_type(c, all_types());
    J v = jm::gen(c, *t.schema);
    jm::drop_clashes(*t.schema, v);
    auto doc = std::make_shared<J>(c.chance(1, 3) ? gen_document(c, *t.schema) : jm::ser(*t.schema, v, c.flip()));
    auto rdoc = std::make_shared<rapidjson::Document>();
    static_cast<rapidjson::Value&>(*rdoc) = jm::to_rj(*doc, rdoc->GetAllocator());
    std::shared_ptr<jt::Holder> shared = t.make();
    shared->set(v);
    const int op = static_cast<int>(c.below(4));
    const bool a = c.flip(), b = c.flip(), d = c.flip();
    const int how = static_cast<int>(c.below(2));
    c.log() << "  json " << t.name << " op " << op << " value " << v << " document " << *doc << "\n";
    auto make = t.make;
    return [=]() -> Job {
        switch (op)
        {
        case 0: return [=] { return shared->text(a, b, d); };
        case 1: return [=] { return show(shared->tree(a, how + 1)); };
        default: break;
        }
        std::shared_ptr<jt::Holder> own = make();
        if (op == 3)
            own->set(v);
        return [=] {
            return guarded([&] {
                if (op == 2)
                    own->read(*rdoc, how);
                else
                    own->patch(*rdoc, how);
                return show(own->get());
            });
        };
    };
}

Topic resource_topic(pbt::Choices& c)
{
    J model = res::gen_root(c);
    auto reqs = std::make_shared<std::vector<res::Request>>();
    const size_t n = 1 + c.below(4);
    for (size_t i = 0; i < n; ++i)
    {
        reqs->push_back(res::gen_request(c, model));
        c.log() << "  request " << res::describe(reqs->back()) << "\n";
    }
    return [=]() -> Job {
        res::Root v;
        jm::from_j(v, model);
        auto r = std::make_shared<kl::resources::resource<res::Root>>(kl::resources::make_resource(std::move(v)));
        return [=] {
            std::string out;
            for (auto& q : *reqs)
            {
                auto o = res::execute(*r, q);
                out += std::to_string(o.status) + " " + o.body + " " + o.exc + ";";
            }
            return out + show(jm::to_j(r->value));
        };
    };
}

Topic text_topic(pbt::Choices& c)
{
    auto s = std::make_shared<std::string>();
    const size_t n = c.below(40);
    for (size_t i = 0; i < n; ++i)
        s->push_back(c.chance(2, 3) ? "/%20aZ, .=-_"[c.below(12)] : static_cast<char>(c.below(256)));
    const int op = static_cast<int>(c.below(6));
    c.log() << "  text op " << op << " " << hex(*s) << "\n";
    auto p = std::make_shared<kl::path>();
    if (op == 3)
        p->set("a/b%2Dc/d/../e" + std::string(n / 4, 'x'));
    return [=]() -> Job {
        switch (op)
        {
        case 0:
            return [=] {
                auto bytes = gsl::as_bytes(gsl::span<const char>{s->data(), s->size()});
                return kl::base64_encode(bytes) + "|" + kl::base64url_encode(bytes);
            };
        case 1:
            return [=] {
                std::string r;
                for (auto& x : {kl::base64_decode(*s), kl::base64url_decode(*s)})
                    r += x ? "ok " + std::to_string(x->size()) + hex(std::string(reinterpret_cast<const char*>(x->data()), x->size())) : "bad ";
                return r;
            };
        case 2:
            return [=] {
                return guarded([&] {
                    kl::path q{*s};
                    std::string r = std::to_string(q.size());
                    for (size_t i = 0; i < q.size(); ++i)
                        r += "/" + hex(std::string(q[i]));
                    return r;
                });
            };
        case 3: // one constant path
            return [=] {
                std::string r;
                for (auto v = p->view(); !v.empty(); v = v.drop_front())
                    r += std::string(v.front()) + "|" + std::string(v.prefix(1)) + ";";
                return r + std::string(p->joined(1));
            };
        case 4:
            return [=] { return std::to_string(kl::hash::fnv1a(*s)) + " " + std::to_string(kl::hash::hsieh(s->data(), s->size())); };
        default:
            return [=] {
                std::ostringstream os;
                auto parts = kl::split(*s, std::string("/, "), false);
                os << kl::stream_join(parts).set_delimiter("|");
                std::vector<int> idx(parts.size(), 3);
                for (auto&& t : kl::zipped(parts, idx))
                    os << std::get<0>(t).size() << std::get<1>(t);
                return os.str();
            };
        }
    };
}

template <typename E>
std::string enum_story(std::initializer_list<const char*> more)
{
    std::string r = std::to_string(kl::enum_reflector<E>::count());
    for (auto v : kl::enum_reflector<E>::values())
        r += std::string(kl::to_string(v)) + (kl::from_string<E>(kl::to_string(v)) == v ? "=" : "!");
    for (auto* m : more)
        r += kl::from_string<E>(m) ? "y" : "n";
    return r;
}

Topic enum_topic(pbt::Choices& c)
{
    const int op = static_cast<int>(c.below(5));
    c.log() << "  enum op " << op << "\n";
    return [=]() -> Job {
        return [=]() -> std::string {
            switch (op)
            {
            case 0: return enum_story<jt::Shade>({"light", "in_between", "mid", ""});
            case 1: return enum_story<jt::Unscoped>({"us_a", "us_c"});
            case 2: return enum_story<jt::Flag>({"x", "exec", "write "});
            case 3: return enum_story<jt::Perm>({"everything", "all"});
            default: return enum_story<res::Color>({"red", "Red"});
            }
        };
    };
}

Topic binary_topic(pbt::Choices& c)
{
    std::vector<std::int32_t> v;
    std::map<std::string, std::uint16_t> m;
    const size_t n = c.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        v.push_back(static_cast<std::int32_t>(c.draw(1000)));
        m[std::string(c.below(4), 'k') + std::to_string(i)] = static_cast<std::uint16_t>(c.draw(100));
    }
    const size_t cut = c.below(60);
    auto buf = std::make_shared<std::vector<std::byte>>(200);
    kl::binary_writer w{*buf};
    w << v << m << std::string("tail");
    if (c.flip())
        buf->resize(std::min(buf->size(), cut));
    c.log() << "  binary " << n << " elements, " << buf->size() << " bytes\n";
    return [=]() -> Job {
        auto own = std::make_shared<std::vector<std::byte>>(200);
        return [=] {
            kl::binary_reader r{*buf};
            std::vector<std::int32_t> a;
            std::map<std::string, std::uint16_t> b;
            std::string t;
            r >> a >> b >> t;
            std::string out = std::to_string(r.err()) + " " + std::to_string(r.pos());
            if (!r.err())
            {
                for (auto x : a)
                    out += "," + std::to_string(x);
                for (auto& x : b)
                    out += "," + x.first + ":" + std::to_string(x.second);
                out += t;
            }
            kl::binary_writer w2{*own};
            w2 << v << m << std::string("x");
            out += " " + std::to_string(w2.pos()) + hex(std::string(reinterpret_cast<const char*>(own->data()), own->size()));
            return out;
        };
    };
}

Topic exception_topic(pbt::Choices& c)
{
    const int n = static_cast<int>(c.draw(100));
    const int op = static_cast<int>(c.below(3));
    c.log() << "  exception op " << op << " " << n << "\n";
    kl::exception_info xi{"file", n, "func"};
    xi.set<tag_n>(n).set<tag_s>("s" + std::to_string(n)).set<tag_o>(opaque{{1, 2, static_cast<unsigned char>(n)}});
    auto shared = std::make_shared<const kl::exception_info>(xi);
    std::exception_ptr p;
    try
    {
        kl::throw_with_info(std::runtime_error{"boom"}, xi);
    }
    catch (...)
    {
        p = std::current_exception();
    }
    return [=]() -> Job {
        switch (op)
        {
        case 0: // one exception, observed by all
            return [=] { return kl::exception_diagnostic_info(p); };
        case 1: // copies of one constant object, edited separately
            return [=] {
                kl::exception_info mine{*shared};
                mine.unset<tag_s>().set<tag_n>(n + 1).set<tag_s>("other");
                std::string r = mine.diagnostic_info() + *mine.get<tag_s>() + std::to_string(*mine.get<tag_n>());
                mine.unset<tag_n>();
                return r + std::to_string(*mine.get<tag_n>()) + shared->diagnostic_info() + *shared->get<tag_s>();
            };
        default:
            return [=] {
                try
                {
                    kl::throw_with_info(std::logic_error{"mine"}, kl::exception_info{"f", n, "g"}.set<tag_s>(std::to_string(n)));
                }
                catch (std::exception& e)
                {
                    auto* i = kl::get_exception_info(e);
                    i->set<tag_n>(n);
                    return kl::exception_diagnostic_info(e) + *i->get<tag_s>();
                }
                return std::string();
            };
        }
    };
}

Topic signal_topic(pbt::Choices& c)
{
    const unsigned n = 1 + static_cast<unsigned>(c.below(4)), stop_at = static_cast<unsigned>(c.below(5));
    const int depth = static_cast<int>(c.below(3));
    const int rounds = 1 + static_cast<int>(c.below(8));
    const bool throws = c.chance(1, 4);
    c.log() << "  signal " << n << " slots, stop at " << stop_at << ", depth " << depth << "\n";
    return [=]() -> Job {
        return [=] {
            // a signal of this thread alone
            kl::signal<void(int)> sig;
            std::string r;
            std::vector<kl::connection> con(n);
            for (unsigned i = 0; i < n; ++i)
                con[i] = sig.connect([&, i](int d) {
                    r += char('a' + i) + std::to_string(d);
                    if (d > 0)
                        sig(d - 1);
                    std::this_thread::yield();
                    r += kl::this_signal::current_connection() == con[i] ? "." : "?";
                    if (i == stop_at)
                        kl::this_signal::stop_emission();
                    if (throws && i == 1 && d == 1)
                        throw std::runtime_error{"slot"};
                });
            for (int k = 0; k < rounds; ++k)
                r += guarded([&] {
                    sig(depth);
                    return std::string(";");
                });
            r += kl::this_signal::current_connection() == kl::connection{} ? "" : "stale";
            auto bl = con[0].get_blocker();
            r += std::to_string(sig.num_slots());
            kl::signal<void(int)> other{std::move(sig)};
            r += std::to_string(other.num_slots());
            con[0].disconnect();
            return r + std::to_string(other.num_slots());
        };
    };
}

Topic file_topic(const std::string& path)
{
    return [=]() -> Job {
        return [=] {
            return guarded([&] {
                kl::file_view v{path.c_str()};
                auto b = v.get_bytes();
                return std::to_string(b.size()) + hex(std::string(reinterpret_cast<const char*>(b.data()), b.size()));
            });
        };
    };
}

struct Scratch
{
    std::string path;
    Scratch()
    {
        const char* dir = getenv("PBT_SCRATCH");
        std::string name = std::string(dir ? dir : "/tmp") + "/c30-XXXXXX";
        int fd = mkstemp(name.data());
        if (fd < 0)
            throw std::runtime_error("scratch file");
        path = name;
        const char text[] = "some bytes of a file";
        if (write(fd, text, sizeof text) != sizeof text)
            throw std::runtime_error("scratch file");
        close(fd);
    }
    ~Scratch() { unlink(path.c_str()); }
};

// In the child process: all threads at once, then every job alone.
std::string run_threads(const std::vector<Topic>& topics, const std::vector<std::vector<size_t>>& plan)
{
    const size_t nt = plan.size();
    std::vector<std::vector<Job>> jobs(nt);
    std::vector<std::vector<std::string>> got(nt);
    for (size_t t = 0; t < nt; ++t)
    {
        for (size_t k : plan[t])
            jobs[t].push_back(topics[k]());
        got[t].resize(plan[t].size());
    }
    std::atomic<size_t> gate{nt};
    std::vector<std::string> odd(nt);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t)
        ts.emplace_back([&, t] {
            gate.fetch_sub(1, std::memory_order_relaxed);
            while (gate.load(std::memory_order_relaxed) > 0)
                ;
            for (size_t i = 0; i < jobs[t].size(); ++i)
                try
                {
                    got[t][i] = jobs[t][i]();
                }
                catch (...)
                {
                    odd[t] = "an unexpected exception left a job";
                }
        });
    for (auto& t : ts)
        t.join();
    for (size_t t = 0; t < nt; ++t)
    {
        if (!odd[t].empty())
            return odd[t];
        for (size_t i = 0; i < plan[t].size(); ++i)
        {
            const std::string alone = topics[plan[t][i]]()();
            if (alone != got[t][i])
                return "job " + std::to_string(plan[t][i]) + " with other threads running gave:\n" + got[t][i] + "\nalone it gives:\n" + alone;
        }
    }
    return {};
}

} // namespace

void property(pbt::Choices& c)
{
    const size_t ntop = 1 + c.below(5);
    Scratch file;
    std::vector<Topic> topics;
    static const char* const labels[] = {"json", "resource", "text", "enum", "binary", "exception", "signal", "file"};
    for (size_t i = 0; i < ntop; ++i)
    {
        c.log() << "job " << i << "\n";
        const size_t k = c.weighted({8, 2, 4, 2, 1, 3, 3, 1});
        c.label(labels[k]);
        switch (k)
        {
        case 0: topics.push_back(json_topic(c)); break;
        case 1: topics.push_back(resource_topic(c)); break;
        case 2: topics.push_back(text_topic(c)); break;
        case 3: topics.push_back(enum_topic(c)); break;
        case 4: topics.push_back(binary_topic(c)); break;
        case 5: topics.push_back(exception_topic(c)); break;
        case 6: topics.push_back(signal_topic(c)); break;
        default: topics.push_back(file_topic(file.path)); break;
        }
    }
    const size_t nt = 2 + c.below(3);
    std::vector<std::vector<size_t>> plan(nt);
    std::vector<size_t> used(ntop);
    for (size_t t = 0; t < nt; ++t)
    {
        c.log() << "thread " << t << ":";
        std::set<size_t> mine;
        do
        {
            plan[t].push_back(c.below(ntop));
            mine.insert(plan[t].back());
            c.log() << " " << plan[t].back();
        } while (plan[t].size() < 6 && c.more(2));
        for (size_t k : mine)
            ++used[k];
        c.log() << "\n";
    }
    for (size_t u : used)
        if (u > 1)
            c.nontrivial();

    int fd[2];
    PBT_CHECK(pipe(fd) == 0, "pipe");
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        const std::string m = run_threads(topics, plan);
        size_t at = 0;
        while (at < m.size() && at < 4000)
        {
            auto w = write(fd[1], m.data() + at, std::min<size_t>(m.size(), 4000) - at);
            if (w <= 0)
                break;
            at += static_cast<size_t>(w);
        }
        _exit(m.empty() ? 0 : 1);
    }
    close(fd[1]);
    std::string msg;
    char buf[512];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) != 0;)
    {
        if (n < 0)
        {
            if (errno == EINTR)
                continue;
            break;
        }
        msg.append(buf, static_cast<size_t>(n));
    }
    close(fd[0]);
    PBT_CHECK(pid > 0, "fork");
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    PBT_CHECK(msg.empty(), msg);
    PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the threads ended with a data race or crash report (status " << st << ")");
}
