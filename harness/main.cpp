// Runs a work file over the registered jobs: driver WORK OUT [SCRATCH]
#include "common.h"

#include <atomic>
#include <fcntl.h>
#include <clocale>
#include <cerrno>
#include <fstream>
#include <locale>
#include <locale.h>
#include <iostream>
#include <sstream>
#include <thread>

namespace drv {
progress* g_progress;
thread_local bool g_quiet = false;
static std::string g_scratch = ".";

std::map<std::string, runner>& registry()
{
    static std::map<std::string, runner> r;
    return r;
}

static void setbuffering(std::FILE* f, int bufsz)
{
    if (bufsz == 0)
        std::setvbuf(f, nullptr, _IONBF, 0);
    else if (bufsz > 0) {
        static thread_local char bufs[64][64];
        static thread_local int k = 0;
        // the stream's buffer has exactly bufsz bytes
        std::setvbuf(f, bufs[k++ % 64], _IOFBF, static_cast<size_t>(bufsz));
    }
}
static std::FILE* opened(std::FILE* f, int bufsz)
{
    if (!f) {
        std::perror("open");
        std::_Exit(70);
    }
    setbuffering(f, bufsz);
    return f;
}
std::FILE* open_mem(const std::string& data, int bufsz)
{
    if (data.empty()) return opened(std::fopen("/dev/null", "r"), bufsz);
    static thread_local std::string keep[8];
    static thread_local int k = 0;
    auto& s = keep[k++ % 8];
    s = data;
    return opened(fmemopen(&s[0], s.size(), "r"), bufsz);
}
std::FILE* open_disk(const std::string& data, int bufsz)
{
    const auto path = g_scratch + "/in." + std::to_string(getpid()) + "." + std::to_string(gettid());
    int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    if (fd < 0 || ::write(fd, data.data(), data.size()) != static_cast<ssize_t>(data.size())) {
        std::perror("write");
        std::_Exit(70);
    }
    ::lseek(fd, 0, SEEK_SET);
    ::unlink(path.c_str());
    return opened(fdopen(fd, "r"), bufsz);
}
std::FILE* open_pipe(const std::string& data, int bufsz)
{
    int p[2];
    if (data.size() > 60000) return open_disk(data, bufsz);
    if (::pipe(p) != 0 || ::write(p[1], data.data(), data.size()) != static_cast<ssize_t>(data.size())) {
        std::perror("pipe");
        std::_Exit(70);
    }
    ::close(p[1]);
    return opened(fdopen(p[0], "r"), bufsz);
}
std::string drain(std::FILE* f)
{
    std::string s;
    for (int c; (c = std::fgetc(f)) != EOF;) s.push_back(static_cast<char>(c));
    return s;
}

static std::vector<int> units(const std::string& s)
{
    std::vector<int> v;
    std::stringstream ss(s);
    for (std::string x; std::getline(ss, x, ',');)
        if (!x.empty()) v.push_back(std::atoi(x.c_str()));
    return v;
}

static std::string json(const item& it, const outcomes& out)
{
    // group the sources by what they did
    std::vector<std::pair<outcome, std::string>> groups;
    for (auto& o : out) {
        bool found = false;
        for (auto& g : groups)
            if (g.first.contiguous == o.contiguous && g.first.e == o.e &&
                g.first.n == o.n && g.first.v == o.v) {
                g.second += " " + o.src;
                found = true;
                break;
            }
        if (!found) groups.emplace_back(o, o.src);
    }
    std::string types = "[";
    {
        std::string job = it.job.substr(it.job.find('/') + 1);  // API/types
        if (job.rfind("many", 0) == 0) {
            const int n = std::atoi(job.c_str() + 4);
            job = "i32";
            for (int k = 1; k < n; ++k) job += "+i32";
        }
        std::stringstream ss(job);
        bool first = true;
        for (std::string x; job != "none" && std::getline(ss, x, '+'); first = false)
            types += (first ? "\"" : ",\"") + x + "\"";
        types += "]";
    }
    std::vector<int> f = it.fmt, s = it.input;
    auto ints = [](const std::vector<int>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
        return r + "]";
    };
    std::string o = "{\"i\":" + std::to_string(it.idx) + ",\"t\":" + types + ",\"w\":" +
        std::to_string(it.mode == 32 ? 32 : 8) + ",\"x\":\"" + it.extra +
        "\",\"f\":" + ints(f) + ",\"s\":" + ints(s) + ",\"r\":[";
    bool first = true;
    for (auto& g : groups) {
        o += first ? "{" : ",{";
        first = false;
        o += "\"src\":\"" + g.second + "\",\"c\":" + (g.first.contiguous ? "true" : "false") +
             ",\"e\":" + std::to_string(g.first.e) + ",\"n\":" + std::to_string(g.first.n) +
             ",\"v\":" + (g.first.v.empty() ? "[]" : g.first.v) + "}";
    }
    return o + "]}\n";
}

// The item in two threads, while two others run the next ones
static void run_in_threads(const std::vector<item>& items, size_t j, outcomes& out)
{
    std::strncpy(g_progress->src, "threads", sizeof g_progress->src - 1);
    outcomes all[4];
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (size_t k = 0; k < 4; ++k) {
        const auto& it = items[k < 2 ? j : (j + k) % items.size()];
        const runner& r = registry().find(it.job)->second;
        ts.emplace_back([&, k] {
            g_quiet = true;
            ++ready;
            while (ready < 4) std::this_thread::yield();
            r(it, all[k]);
        });
    }
    for (auto& t : ts) t.join();
    for (auto& o : all[0]) out.push_back(o);
    for (auto& o : all[1]) out.push_back(o);
}

// What else there is in a program, and should make no difference to scans
struct surroundings {
    struct odd : std::numpunct<char> {
        char do_decimal_point() const override { return '1'; }
        char do_thousands_sep() const override { return '2'; }
        std::string do_grouping() const override { return "\1"; }
        std::string do_truename() const override { return "false"; }
        std::string do_falsename() const override { return "true"; }
    };
    struct wodd : std::numpunct<wchar_t> {
        wchar_t do_decimal_point() const override { return L'1'; }
        wchar_t do_thousands_sep() const override { return L'2'; }
        std::string do_grouping() const override { return "\1"; }
        std::wstring do_truename() const override { return L"false"; }
        std::wstring do_falsename() const override { return L"true"; }
    };
    struct strange : std::ctype<char> {
        // digits are spaces, everything else is a digit
        static const mask* table()
        {
            static mask t[table_size];
            for (size_t k = 0; k < table_size; ++k) t[k] = k >= '0' && k <= '9' ? space : digit;
            return t;
        }
        strange() : std::ctype<char>(table()) {}
        char do_tolower(char) const override { return 'x'; }
        char do_toupper(char) const override { return 'X'; }
    };
    std::string c_locale;
    std::locale cxx_locale;
    locale_t thread_locale, mine = nullptr;

    explicit surroundings(long idx)
    {
        static const char* names[] = {"C", "de_DE.utf8", "tr_TR.utf8", "fr_FR.utf8", "ar_EG.utf8", "ja_JP.eucjp", "hi_IN", "C.utf8", "th_TH"};
        const char* name = names[static_cast<size_t>(idx) % 9];
        if (!std::setlocale(LC_ALL, name)) std::setlocale(LC_ALL, "C");
        const auto classic = std::locale::classic();
        switch (idx / 9 % 4) {
            case 0: break;
            case 1: std::locale::global(std::locale(std::locale(classic, new odd), new wodd)); break;
            case 2: std::locale::global(std::locale(std::locale(classic, new odd), new strange)); break;
            default:
                try {
                    std::locale::global(std::locale(name));
                }
                catch (const std::exception&) {
                }
        }
        if (idx / 36 % 3 == 1) {
            mine = newlocale(LC_ALL_MASK, names[static_cast<size_t>(idx / 7) % 9], nullptr);
            if (mine) uselocale(mine);
        }
        c_locale = std::setlocale(LC_ALL, nullptr);
        cxx_locale = std::locale();
        thread_locale = uselocale(nullptr);
        static const int codes[] = {0, ERANGE, EINVAL, EILSEQ, ENOMEM, EINTR};
        errno = codes[static_cast<size_t>(idx / 5) % 6];
    }
    bool kept() const
    {
        return c_locale == std::setlocale(LC_ALL, nullptr) && cxx_locale == std::locale() &&
               thread_locale == uselocale(nullptr);
    }
    ~surroundings()
    {
        uselocale(LC_GLOBAL_LOCALE);
        if (mine) freelocale(mine);
        std::locale::global(std::locale::classic());
        std::setlocale(LC_ALL, "C");
    }
};

static int run(const char* work, const char* outp)
{
    std::vector<item> items;
    {
        std::ifstream in(work);
        long idx = 0;
        for (std::string line; std::getline(in, line);) {
            std::vector<std::string> c;
            std::stringstream ss(line);
            for (std::string x; std::getline(ss, x, '\t');) c.push_back(x);
            c.resize(6);
            item it;
            it.idx = c[0].empty() ? idx : std::atol(c[0].c_str());
            it.job = c[1];
            it.mode = std::atoi(c[2].c_str());
            it.fmt = units(c[3]);
            it.input = units(c[4]);
            it.extra = c[5];
            ++idx;
            if (!registry().count(it.job)) {
                std::cerr << "unknown job " << it.job << "\n";
                return 70;
            }
            items.push_back(std::move(it));
        }
    }
    g_progress = static_cast<progress*>(mmap(nullptr, sizeof(progress), PROT_READ | PROT_WRITE,
                                             MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    { std::ofstream trunc(outp); }
    const bool ambient = std::getenv("AMBIENT") != nullptr;
    const bool par = std::getenv("PAR") != nullptr;
    size_t k = 0;
    int deaths = 0;
    while (k < items.size()) {
        g_progress->idx = static_cast<long>(k);
        pid_t pid = fork();
        if (pid == 0) {
            std::ofstream out(outp, std::ios::app);
            for (size_t j = k; j < items.size(); ++j) {
                g_progress->idx = static_cast<long>(j);
                alarm(20);
                outcomes o;
                if (par) run_in_threads(items, j, o);
                else if (ambient) {
                    // depends on the item alone
                    unsigned long h = 5381;
                    for (char c : items[j].job) h = h * 33 + static_cast<unsigned char>(c);
                    for (int c : items[j].fmt) h = h * 33 + static_cast<unsigned>(c);
                    for (int c : items[j].input) h = h * 33 + static_cast<unsigned>(c);
                    surroundings around(static_cast<long>((h ^ (h >> 17)) % 1000003));
                    registry()[items[j].job](items[j], o);
                    if (!around.kept()) {
                        outcome x;
                        x.src = "surroundings";
                        x.e = 94;
                        o.push_back(x);
                    }
                }
                else registry()[items[j].job](items[j], o);
                out << json(items[j], o);
                out.flush();
            }
            std::_Exit(0);
        }
        int st = 0;
        if (pid < 0 || waitpid(pid, &st, 0) != pid) {
            std::perror("fork");
            return 70;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 70) return 70;
        const auto j = static_cast<size_t>(g_progress->idx);
        outcome o;
        o.src = g_progress->src;
        o.contiguous = o.src.find("sv") != std::string::npos || o.src.find("str") != std::string::npos || o.src.find("mid") != std::string::npos;
        o.e = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? 99 : 98;
        {
            std::ofstream out(outp, std::ios::app);
            out << json(items[j], {o});
        }
        k = j + 1;
        if (++deaths >= 40) {  // enough is known
            std::ofstream out(outp, std::ios::app);
            for (; k < items.size(); ++k) out << "{\"skip\":" << items[k].idx << "}\n";
        }
    }
    return 0;
}
}  // namespace drv

int main(int argc, char** argv)
{
    if (argc == 2 && std::string(argv[1]) == "--names") {
        for (auto& r : drv::registry()) std::cout << r.first << "\n";
        return 0;
    }
    if (argc < 3) return 70;
    if (argc > 3) drv::g_scratch = argv[3];
    signal(SIGPIPE, SIG_IGN);
    return drv::run(argv[1], argv[2]);
}
