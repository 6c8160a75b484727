// C25: a file view shows exactly the file's bytes, and open failures are reported.
// All files live in a scratch directory created under $PBT_SCRATCH and removed at the end of the case.
#include <cerrno>
#include <cstdint>
#include <memory>
#include <string>
#include <system_error>
#include <vector>
#include "pbt.hpp"
#include "kl/file_view.hpp"

#include <cstdarg>
#include <dirent.h>
#include <sys/resource.h>

const char* const property_rule =
    "a non-empty file is viewed, or opening something unmappable (including an injected system call failure) is attempted";

// --- system call hooks (linked with --wrap): count, and fail on request ---------------------------
namespace hook {
bool armed = false; // set only around file_view calls
int fail_open = 0, fail_fstat = 0, fail_mmap = 0;
int hit = 0;
int opens = 0, closes = 0, maps = 0, unmaps = 0;
std::vector<std::pair<char*, size_t>> live; // mappings made by the library
std::string error;
} // namespace hook

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_fstat(int, struct stat*);

void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
{
    if (hook::armed && hook::fail_mmap)
    {
        hook::hit = 1;
        errno = hook::fail_mmap;
        return MAP_FAILED;
    }
    void* r = __real_mmap(a, n, p, f, fd, o);
    if (hook::armed && r != MAP_FAILED)
    {
        ++hook::maps;
        hook::live.emplace_back(static_cast<char*>(r), n);
    }
    return r;
}
int __wrap_munmap(void* a, size_t n)
{
    if (hook::armed)
    {
        ++hook::unmaps;
        const auto page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
        bool found = false;
        for (size_t i = 0; i < hook::live.size(); ++i)
            // the kernel works on whole pages
            if (hook::live[i].first == a && (hook::live[i].second + page - 1) / page == (n + page - 1) / page)
            {
                hook::live.erase(hook::live.begin() + static_cast<std::ptrdiff_t>(i));
                found = true;
                break;
            }
        if (!found)
        {
            hook::error = "munmap of a range that is not (or no longer) mapped by a view";
            return 0; // do not let it hit an unrelated mapping
        }
    }
    return __real_munmap(a, n);
}
int __wrap_open(const char* p, int f, ...)
{
    if (hook::armed && hook::fail_open)
    {
        hook::hit = 1;
        errno = hook::fail_open;
        return -1;
    }
    mode_t m = 0;
    if (f & O_CREAT)
    {
        va_list ap;
        va_start(ap, f);
        m = static_cast<mode_t>(va_arg(ap, int));
        va_end(ap);
    }
    if (hook::armed)
        ++hook::opens;
    return __real_open(p, f, m);
}
int __wrap_close(int fd)
{
    if (hook::armed)
        ++hook::closes;
    int r = __real_close(fd);
    if (hook::armed && r != 0)
        hook::error = "close of a descriptor that is not open";
    return r;
}
int __wrap_fstat(int fd, struct stat* st)
{
    if (hook::armed && hook::fail_fstat)
    {
        hook::hit = 1;
        errno = hook::fail_fstat;
        return -1;
    }
    return __real_fstat(fd, st);
}
}

namespace {

struct Armed
{
    Armed() { hook::armed = true; }
    ~Armed() { hook::armed = false; }
};

struct Scratch
{
    std::string dir;
    Scratch()
    {
        const char* base = std::getenv("PBT_SCRATCH");
        std::string t = std::string(base && *base ? base : "/tmp") + "/fv-XXXXXX";
        if (!mkdtemp(t.data()))
            throw std::runtime_error("mkdtemp failed");
        dir = t;
        chmod(dir.c_str(), 0755);
    }
    ~Scratch()
    {
        // only plain names inside our own directory
        if (DIR* d = opendir(dir.c_str()))
        {
            while (dirent* e = readdir(d))
            {
                std::string n = e->d_name;
                if (n == "." || n == "..")
                    continue;
                if (unlink((dir + "/" + n).c_str()) != 0)
                    rmdir((dir + "/" + n).c_str());
            }
            closedir(d);
        }
        rmdir(dir.c_str());
    }
};

void write_file(const std::string& path, const std::string& bytes)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        throw std::runtime_error("cannot create " + path);
    size_t at = 0;
    while (at < bytes.size())
    {
        ssize_t r = write(fd, bytes.data() + at, bytes.size() - at);
        if (r <= 0)
            throw std::runtime_error("cannot write " + path);
        at += static_cast<size_t>(r);
    }
    close(fd);
}

size_t open_fds()
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    if (!d)
        return 0;
    while (readdir(d))
        ++n;
    closedir(d);
    return n;
}

bool mapped_below(const std::string& dir)
{
    std::ifstream f("/proc/self/maps");
    std::string l;
    while (std::getline(f, l))
        if (l.find(dir) != std::string::npos)
            return true;
    return false;
}

std::string content(pbt::Choices& c, size_t page)
{
    size_t n;
    switch (c.draw(8))
    {
    case 0: n = c.below(4); break;
    case 1: n = page - 1 + c.below(3); break;
    case 2: n = page * (1 + c.below(4)) + c.below(3) - 1; break;
    case 3: n = c.below(5 * page); break;
    case 4: n = c.chance(1, 6) ? 1000000 + c.below(3000000) : c.below(300); break;
    default: n = c.below(64); break;
    }
    std::string s(n, '\0');
    pbt::Rng r(c.draw(0));
    unsigned style = static_cast<unsigned>(c.draw(3));
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t v = style == 0 ? r.next() : style == 1 ? 0 : 0x0a0d0a0d1a00ff00ull;
        std::memcpy(s.data() + i, &v, std::min<size_t>(8, n - i));
    }
    return s;
}

void check_view(const kl::file_view& v, const std::string& want, const char* when)
{
    auto b = v.get_bytes();
    PBT_EQ(static_cast<size_t>(b.size()), want.size(), "size of the view " << when);
    if (want.size() && std::memcmp(b.data(), want.data(), want.size()) != 0)
    {
        size_t i = 0;
        while (static_cast<unsigned char>(want[i]) == static_cast<unsigned char>(b.data()[i]))
            ++i;
        PBT_FAIL("bytes of the view differ from the file at offset " << i << " of " << want.size() << " " << when);
    }
    PBT_CHECK(want.empty() == b.empty(), "empty() of the view " << when);
}

std::unique_ptr<kl::file_view> open_view(const std::string& path)
{
    Armed a;
    return std::make_unique<kl::file_view>(path.c_str());
}
void drop(std::unique_ptr<kl::file_view>& v)
{
    Armed a;
    v.reset();
}

template <typename T>
void copies(pbt::Choices& c, std::vector<std::unique_ptr<T>>& views, std::vector<std::string>& contents, size_t i)
{
    // If a view can be copied, the copy and the original must both stay usable on their own.
    if constexpr (std::is_copy_constructible_v<T>)
    {
        c.log() << "copy view " << i << "\n";
        c.label("copied");
        std::unique_ptr<T> n(new T(*views[i]));
        check_view(*n, contents[i], "(copy)");
        views.push_back(std::move(n));
        contents.push_back(contents[i]);
    }
    else
        (void)c, (void)views, (void)contents, (void)i;
}

void ok_case(pbt::Choices& c, const Scratch& s, size_t page)
{
    std::vector<std::unique_ptr<kl::file_view>> views;
    std::vector<std::string> contents; // of the views
    struct File
    {
        std::string path, bytes;
    };
    std::vector<File> files;
    struct Held
    {
        std::vector<int> fds;
        ~Held()
        {
            for (int fd : fds)
                close(fd);
        }
    } held;
    size_t serial = 0;
    auto check_all = [&](const char* when) {
        for (size_t i = 0; i < views.size(); ++i)
            check_view(*views[i], contents[i], when);
        PBT_CHECK(hook::error.empty(), hook::error);
    };
    unsigned steps = 2 + static_cast<unsigned>(c.draw(10));
    for (unsigned k = 0; k < steps; ++k)
    {
        switch (c.weighted({4, 5, 3, 2, 1, 1}))
        {
        case 0: {
            static const char* const names[] = {"a", "b.bin", "with space", "\xc3\xa9\xff", "long-name-0123456789-0123456789"};
            File f{s.dir + "/" + c.pick(names) + std::to_string(serial++), content(c, page)};
            c.log() << "create file of " << f.bytes.size() << " bytes\n";
            write_file(f.path, f.bytes);
            if (c.chance(1, 6))
            {
                std::string ln = f.path + ".lnk";
                if (symlink(f.path.c_str(), ln.c_str()) == 0)
                    f.path = ln;
            }
            else if (c.chance(1, 6))
            {
                // the name is gone, a descriptor still leads to the file
                const int fd = open(f.path.c_str(), O_RDONLY | O_CLOEXEC);
                if (fd >= 0)
                {
                    held.fds.push_back(fd);
                    unlink(f.path.c_str());
                    f.path = "/proc/self/fd/" + std::to_string(fd);
                    c.label("unlinked file");
                }
            }
            files.push_back(f);
            break;
        }
        case 1:
            if (!files.empty() && views.size() < 6)
            {
                const File& f = files[c.below(files.size())];
                c.log() << "view of " << f.bytes.size() << " bytes\n";
                c.label(f.bytes.empty() ? "empty file" : f.bytes.size() % page == 0 ? "whole pages" : f.bytes.size() > page ? "several pages" : "small file");
                if (!f.bytes.empty())
                    c.nontrivial();
                views.push_back(open_view(f.path));
                contents.push_back(f.bytes);
            }
            break;
        case 2:
            if (!views.empty())
            {
                size_t i = c.below(views.size());
                c.log() << "destroy view " << i << "\n";
                drop(views[i]);
                views.erase(views.begin() + static_cast<std::ptrdiff_t>(i));
                contents.erase(contents.begin() + static_cast<std::ptrdiff_t>(i));
            }
            break;
        case 3:
            if (!files.empty())
            {
                // the directory entry goes away (the path may be re-created with other content)
                size_t i = c.below(files.size());
                c.log() << "unlink file " << i << "\n";
                const bool nameless = files[i].path.compare(0, 6, "/proc/") == 0;
                if (!nameless)
                    unlink(files[i].path.c_str());
                if (c.flip() && !nameless)
                {
                    files[i].bytes = content(c, page);
                    write_file(files[i].path + ".new", files[i].bytes);
                    files[i].path += ".new";
                }
                else
                    files.erase(files.begin() + static_cast<std::ptrdiff_t>(i));
                c.label_if(!views.empty(), "unlinked while viewed");
            }
            break;
        case 4:
            if (!views.empty())
                copies(c, views, contents, c.below(views.size()));
            break;
        default: {
            // a failing open in between disturbs nothing
            bool threw = false;
            try
            {
                open_view(s.dir + "/does-not-exist");
            }
            catch (const std::system_error&)
            {
                threw = true;
            }
            PBT_CHECK(threw, "opening a missing file did not fail");
        }
        }
        check_all("after a step");
    }
    while (!views.empty())
    {
        drop(views.back());
        views.pop_back();
        contents.pop_back();
        check_all("after destroying another view");
    }
}

void huge_case(pbt::Choices& c, const Scratch& s)
{
    // sparse file beyond 4 GiB: marks at both ends and around 2^31 / 2^32
    const uint64_t size = (1ull << 32) + c.below(100000);
    std::string path = s.dir + "/huge";
    c.label("over 4 GiB");
    c.log() << "sparse file of " << size << " bytes\n";
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, static_cast<off_t>(size)) != 0)
    {
        if (fd >= 0)
            close(fd);
        return; // file system cannot do it: nothing to judge
    }
    std::vector<uint64_t> marks{0, (1ull << 31) - 1, 1ull << 31, size - 1};
    for (auto m : marks)
        if (pwrite(fd, "M", 1, static_cast<off_t>(m)) != 1)
        {
            close(fd);
            return;
        }
    close(fd);
    c.nontrivial();
    auto v = open_view(path);
    auto b = v->get_bytes();
    PBT_EQ(static_cast<uint64_t>(b.size()), size, "size of the view of a sparse file");
    for (auto m : marks)
        PBT_CHECK(b.data()[m] == std::byte{'M'}, "byte at " << m << " of the sparse file");
    for (int i = 0; i < 20; ++i)
    {
        uint64_t at = c.draw(size);
        if (std::find(marks.begin(), marks.end(), at) == marks.end())
            PBT_CHECK(b.data()[at] == std::byte{0}, "byte at " << at << " of the sparse file");
    }
    drop(v);
}

void must_fail(pbt::Choices& c, const std::string& path, const char* what, bool only_if_hit)
{
    struct stat st;
    if (::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode) && st.st_size == 0)
        return; // a file system that gives directories no size: indistinguishable from an empty file
    c.nontrivial();
    c.label(what);
    c.log() << "open " << what << "\n";
    hook::hit = 0;
    bool threw = false;
    int code = 0;
    // what the operating system says about the path
    int os = hook::fail_open ? hook::fail_open : hook::fail_fstat ? hook::fail_fstat : hook::fail_mmap;
    if (!os)
    {
        int fd = __real_open(path.c_str(), O_RDONLY);
        if (fd < 0)
            os = errno;
        else
            __real_close(fd);
    }
    std::unique_ptr<kl::file_view> v;
    try
    {
        v = open_view(path);
    }
    catch (const std::system_error& e)
    {
        threw = true;
        code = e.code().value();
    }
    if (only_if_hit && !hook::hit)
        return;
    PBT_CHECK(threw, "opening " << what << " did not report an error");
    PBT_CHECK(code != 0, "error reported for " << what << " carries no error code");
    if (os)
        PBT_EQ(code, os, "error code reported for " << what);
}

void bad_case(pbt::Choices& c, const Scratch& s, size_t page)
{
    std::string file = s.dir + "/f";
    write_file(file, content(c, page) + "x");
    switch (c.draw(12))
    {
    case 0: return must_fail(c, s.dir + "/missing", "a missing file", false);
    case 1: return must_fail(c, s.dir, "a directory", false);
    case 2: return must_fail(c, file + "/x", "a path through a file", false);
    case 3: return must_fail(c, s.dir + "/" + std::string(300, 'n'), "a too long name", false);
    case 4: return must_fail(c, "", "an empty path", false);
    case 5: {
        std::string l = s.dir + "/dangling";
        if (symlink((s.dir + "/nowhere").c_str(), l.c_str()) == 0)
            must_fail(c, l, "a dangling symlink", false);
        return;
    }
    case 6: {
        std::string l = s.dir + "/loop";
        if (symlink(l.c_str(), l.c_str()) == 0)
            must_fail(c, l, "a symlink loop", false);
        return;
    }
    case 7: {
        chmod(file.c_str(), 0);
        bool root = geteuid() == 0;
        if (root && seteuid(65534) != 0)
            return;
        struct Back
        {
            bool on;
            ~Back()
            {
                if (on && seteuid(0) != 0)
                    _exit(3);
            }
        } back{root};
        return must_fail(c, file, "an unreadable file", false);
    }
    case 8: {
        std::string d = s.dir + "/sub";
        mkdir(d.c_str(), 0755);
        return must_fail(c, d, "an empty directory", false);
    }
    case 9:
        hook::fail_open = c.flip() ? EMFILE : EIO;
        must_fail(c, file, "a file when open fails", true);
        hook::fail_open = 0;
        break;
    case 10:
        hook::fail_fstat = EIO;
        must_fail(c, file, "a file when fstat fails", true);
        hook::fail_fstat = 0;
        break;
    default:
        hook::fail_mmap = c.flip() ? ENOMEM : ENODEV;
        must_fail(c, file, "a file when mmap fails", true);
        hook::fail_mmap = 0;
        break;
    }
    // the failure leaves the file openable
    std::string want;
    {
        std::ifstream f(file, std::ios::binary);
        want.assign(std::istreambuf_iterator<char>(f), {});
    }
    auto v = open_view(file);
    check_view(*v, want, "after an injected failure");
    drop(v);
}
} // namespace

void property(pbt::Choices& c)
{
    const auto page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    hook::fail_open = hook::fail_fstat = hook::fail_mmap = 0;
    hook::live.clear();
    hook::error.clear();
    hook::opens = hook::closes = hook::maps = hook::unmaps = 0;
    Scratch s;
    size_t fds = open_fds();
    if (c.chance(1, 3))
        bad_case(c, s, page);
    else if (c.chance(1, 60))
        huge_case(c, s);
    else
        ok_case(c, s, page);
    PBT_EQ(open_fds(), fds, "open file descriptors after the case");
    PBT_CHECK(hook::live.empty(), "a mapping was not released");
    PBT_CHECK(!mapped_below(s.dir), "a file of the case is still mapped");
    PBT_CHECK(hook::error.empty(), hook::error);
    PBT_EQ(hook::maps, hook::unmaps, "mappings made and released");
}
