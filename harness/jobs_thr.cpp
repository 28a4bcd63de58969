// Two threads scan one stream.  Where the second one gets to run is decided here: whenever
// the first reads more into the stream's buffer, puts a character back, or gives up the lock
// of the stream.  The scans' own calls of flockfile, funlockfile and ungetc end up below.
#include "file_ops.h"

#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <set>
#include <thread>

namespace {
enum class st { idle, go, running, blocked, quit };
struct {
    std::mutex m;
    std::condition_variable cv;
    std::FILE* file = nullptr;
    st worker = st::idle;
    size_t left = 0;        // operations the worker hasn't begun
    std::set<int> points;   // where the worker gets to run
    int count = 0;
} s;
thread_local int role = 0;  // 1: the first thread, 2: the worker
thread_local int depth = 0;

void settle(std::unique_lock<std::mutex>& l, bool even_blocked)
{
    s.cv.wait(l, [&] { return s.worker == st::idle || (even_blocked && s.worker == st::blocked); });
}
// the first thread has come to a point where it can be interrupted
void point()
{
    std::unique_lock l(s.m);
    const int k = s.count++;
    if (!s.points.count(k) || s.worker != st::idle || !s.left) return;
    s.worker = st::go;
    s.cv.notify_all();
    settle(l, true);
}
template <typename F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace

extern "C" void flockfile(std::FILE* f) noexcept
{
    static const auto fn = real<void (*)(std::FILE*)>("flockfile");
    if (!role || f != s.file) return fn(f);
    if (role == 2 && ftrylockfile(f) != 0) {
        {
            std::lock_guard l(s.m);
            s.worker = st::blocked;
            s.cv.notify_all();
        }
        fn(f);
        std::lock_guard l(s.m);
        s.worker = st::running;
    }
    else if (role == 1)
        fn(f);
    ++depth;
}
extern "C" void funlockfile(std::FILE* f) noexcept
{
    static const auto fn = real<void (*)(std::FILE*)>("funlockfile");
    fn(f);
    if (!role || f != s.file) return;
    if (--depth == 0 && role == 1) {
        {
            std::unique_lock l(s.m);
            settle(l, false);  // whoever waited for the lock has it now
        }
        point();
    }
}
extern "C" int ungetc(int c, std::FILE* f)
{
    static const auto fn = real<int (*)(int, std::FILE*)>("ungetc");
    if (role == 1 && f == s.file) point();
    return fn(c, f);
}

namespace {
struct cookie {
    std::string data;
    size_t pos = 0;
    size_t chunk = 0;
};
ssize_t cookie_read(void* p, char* buf, size_t n)
{
    auto& c = *static_cast<cookie*>(p);
    if (role == 1) point();
    n = std::min({n, c.chunk, c.data.size() - c.pos});
    std::memcpy(buf, c.data.data() + c.pos, n);
    c.pos += n;
    return static_cast<ssize_t>(n);
}

using ops = std::vector<std::string>;
struct done {
    std::string text;
    int begin, end;
};
std::atomic<int> now;
done act(const std::string& op)
{
    done d;
    d.begin = now++;
    if (op[0] == 's')
        d.text = perform(s.file, op);
    else {
        flockfile(s.file);
        d.text = perform(s.file, op);
        funlockfile(s.file);
    }
    d.end = now++;
    d.text = op_json(op) + d.text;
    return d;
}

std::vector<done> run(const ops& a, const ops& b, cookie& c, int bufsz, const std::set<int>& points, std::string& rest)
{
    std::vector<done> da, db;
    static char buf[64];
    s.file = fopencookie(&c, "r", {cookie_read, nullptr, nullptr, nullptr});
    if (bufsz == 0) std::setvbuf(s.file, nullptr, _IONBF, 0);
    else if (bufsz > 0) std::setvbuf(s.file, buf, _IOFBF, static_cast<size_t>(bufsz));
    s.points = points;
    s.count = 0;
    s.left = b.size();
    s.worker = st::idle;
    now = 0;
    std::thread w([&] {
        role = 2;
        depth = 0;
        for (auto& op : b) {
            {
                std::unique_lock l(s.m);
                s.cv.wait(l, [] { return s.worker == st::go || s.worker == st::quit; });
                s.worker = st::running;
                --s.left;
            }
            auto d = act(op);
            std::lock_guard l(s.m);
            db.push_back(d);
            s.worker = st::idle;
            s.cv.notify_all();
        }
        role = 0;
    });
    role = 1;
    depth = 0;
    for (auto& op : a) da.push_back(act(op));
    role = 0;
    for (;;) {  // the rest of the worker's operations
        std::unique_lock l(s.m);
        settle(l, false);
        if (!s.left) break;
        s.worker = st::go;
        s.cv.notify_all();
    }
    w.join();
    rest = drv::drain(s.file);
    std::fclose(s.file);
    s.file = nullptr;
    da.insert(da.end(), db.begin(), db.end());
    return da;
}

// extra: "s1;s2|g0;s1"
drv::adder a("thr", [](const drv::item& it, drv::outcomes& out) {
    const auto in = drv::text<char>(it.input);
    ops prog[2];
    int k = 0;
    std::stringstream ss(it.extra);
    for (std::string part; k < 2 && std::getline(ss, part, '|'); ++k) {
        std::stringstream pp(part);
        for (std::string op; std::getline(pp, op, ';');) prog[k].push_back(op);
    }
    auto one = [&](int bufsz, size_t chunk, const std::set<int>& points) {
        const auto name = "b" + std::to_string(bufsz) + "c" + std::to_string(chunk);
        drv::mark(name.c_str());
        cookie c{in, 0, chunk};
        std::string rest;
        const auto r = run(prog[0], prog[1], c, bufsz, points, rest);
        drv::outcome o;
        o.src = name;
        for (int p : points) o.src += "@" + std::to_string(p);
        o.v = "[";
        for (auto& d : r)
            o.v += d.text + ",\"b\":" + std::to_string(d.begin) + ",\"d\":" + std::to_string(d.end) + "},";
        o.v += "{\"o\":\"z\",\"a\":0,\"e\":0,\"v\":" + esc(rest) + ",\"b\":0,\"d\":0}]";
        out.push_back(o);
        return s.count;
    };
    static const std::pair<int, size_t> bufs[] = {{-1, 4096}, {0, 1}, {1, 1}, {2, 2}, {3, 2}, {4, 4}, {7, 7}, {-1, 1}, {-1, 5}};
    for (int j = 0; j < 3; ++j) {
        const auto [bufsz, chunk] = bufs[static_cast<size_t>(it.idx * 5 + j * 4) % 9];
        int n = one(bufsz, chunk, {});
        const int step = n > 30 ? n / 15 : 1;
        for (int p = 0; p < n; p += step) one(bufsz, chunk, {p});
        if (prog[1].size() > 1)
            for (int p = 0; p < n; p += 2 * step) one(bufsz, chunk, {p, p + 1 + static_cast<int>(it.idx % 3)});
    }
});
}  // namespace
