// Native runtime of the specification primitives: replays a verifier counterexample on the real code, and searches
// for a concrete failing input.  Each attempt runs in a forked child under ASan/UBSan.
//   prog CONTRACT replay TAPE           exit 3 = postcondition violated / real code failed, 0 = passed, 4 = outside precondition
//   prog CONTRACT search SECONDS SEED OUT [TAPE]
#include "vf.hh"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <ctime>
#include <map>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <algorithm>
#include <fmt/core.h>

namespace
{
struct item
{
    bool bytes = false;
    int bits = 0;
    uint64_t v = 0;
    std::vector<uint8_t> b;
};
std::map<std::string, item> tape, base_tape;
std::vector<std::string> order;
std::map<std::string, int> uses;
bool searching = false, quiet = false;
bool allow_exit = false;
jmp_buf out;
bool running = false;
std::mt19937_64 rng;
std::vector<void *> blocks;
const char *failed = nullptr;
struct shared_t
{
    uint64_t iter;
    char last[200];
} *shared;

std::string key(const char *name)
{
    int n = uses[name]++;
    std::string k(name);
    if (n)
        k += "#" + std::to_string(n);
    for (char &c : k)
        if (c == ' ')
            c = '_'; // as in the replay file
    return k;
}

uint64_t rnd() { return rng(); }

uint64_t gen_int(int bits)
{
    uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (rnd() % 12) {
        case 0: return 0;
        case 1: return rnd() % 4;
        case 2: return (0 - (rnd() % 4)) & m;
        case 3: return rnd() % 20;
        case 4: return (1ull << (rnd() % bits)) & m;
        case 5: return ((1ull << (rnd() % bits)) - 1) & m;
        case 6: return ((1ull << (rnd() % bits)) | (1ull << (rnd() % bits))) & m;
        case 7: return (1ull << (bits - 1)) - (rnd() % 3) + 1;
        case 8: return rnd() & rnd() & rnd() & m;
        case 9: return rnd() % 300;
        case 10: {
            // floating point values of the right width
            static const double s[] = {0.0, -0.0, 1, -1, 0.5, 2, 3, 64, 127.5, 4096, 65536, -8, 1e30, 1e-30, 0.1, 8191.5};
            double d = (rnd() & 1) ? s[rnd() % 16] : (double)(int64_t)(rnd() % 20001 - 10000) / (double)(1 << (rnd() % 5));
            if (bits == 32)
                return std::bit_cast<uint32_t>((float)d);
            if (bits == 64)
                return std::bit_cast<uint64_t>(d);
            return rnd() & m;
        }
        default: return rnd() & m;
    }
}

void gen_bytes(std::vector<uint8_t> &b)
{
    int mode = rnd() % 9;
    if (mode > 6)
        mode = 2;
    if (mode == 6) {
        // runs
        for (size_t i = 0; i < b.size();) {
            static const uint8_t v[] = {0, 0, 0, 255, 255, 1};
            uint8_t x = rnd() % 8 ? v[rnd() % 6] : (uint8_t)rnd();
            size_t n = rnd() % 3 ? rnd() % 5 + 1 : (rnd() % 2 ? 250 + rnd() % 12 : rnd() % 600 + 1);
            while (n-- && i < b.size())
                b[i++] = x;
        }
        return;
    }
    static const char al[] = "a bA\"\"/*\\{}\n\r\t01.-;'\\";
    for (auto &x : b) {
        switch (mode) {
            case 0: x = rnd(); break;
            case 1: x = (rnd() % 4) ? 0 : (uint8_t)rnd(); break;
            case 2: x = al[rnd() % (sizeof(al) - 1)]; break;
            case 3: x = (rnd() % 3) ? 0 : (rnd() % 3 ? 1u << (rnd() % 8) : 255); break;
            case 4: x = (rnd() % 3) ? 255 : rnd(); break;
            default: x = rnd() % 5; break;
        }
    }
}

void save_tape(const char *path)
{
    FILE *f = fopen(path, "w");
    if (!f)
        return;
    for (auto &k : order) {
        auto &it = tape[k];
        if (it.bytes) {
            fprintf(f, "%s bytes %zu ", k.c_str(), it.b.size());
            for (auto c : it.b)
                fprintf(f, "%02x", c);
            fprintf(f, "\n");
        } else {
            fprintf(f, "%s u %d %llu\n", k.c_str(), it.bits, (unsigned long long)it.v);
        }
    }
    fclose(f);
}

void load_tape(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f) {
        fprintf(stderr, "no tape %s\n", path);
        exit(2);
    }
    char *line = nullptr;
    size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#')
            continue;
        char *save, *nm = strtok_r(line, " \n", &save), *kind = nm ? strtok_r(nullptr, " \n", &save) : nullptr;
        if (!kind)
            continue;
        item it;
        if (!strcmp(kind, "bytes")) {
            it.bytes = true;
            size_t n = strtoull(strtok_r(nullptr, " \n", &save), nullptr, 10);
            char *hex = strtok_r(nullptr, " \n", &save);
            it.b.resize(n);
            if (hex)
                for (size_t i = 0; i < n && hex[2 * i] && hex[2 * i + 1]; i++) {
                    char t[3] = {hex[2 * i], hex[2 * i + 1], 0};
                    it.b[i] = (uint8_t)strtoul(t, nullptr, 16);
                }
        } else {
            it.bits = atoi(strtok_r(nullptr, " \n", &save));
            it.v = strtoull(strtok_r(nullptr, " \n", &save), nullptr, 10);
        }
        base_tape[nm] = it;
    }
    fclose(f);
}

[[noreturn]] void fail(const char *what)
{
    failed = what;
    longjmp(out, 3);
}
} // namespace

extern "C" {
__attribute__((no_sanitize("all"))) const char *__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_odr_violation=0";
}
const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0"; }

uint64_t vf_any(int bits, const char *name) noexcept
{
    std::string k = key(name);
    auto it = base_tape.find(k);
    item x;
    x.bits = bits;
    if (it != base_tape.end() && !(searching && rnd() % 4 == 0))
        x.v = it->second.v;
    else if (searching)
        x.v = gen_int(bits);
    if (bits < 64)
        x.v &= (1ull << bits) - 1;
    tape[k] = x;
    order.push_back(k);
    return x.v;
}
uint64_t vf_any_range(int bits, const char *name, uint64_t lo, uint64_t hi) noexcept
{
    std::string k = key(name);
    auto it = base_tape.find(k);
    item x;
    x.bits = bits;
    if (it != base_tape.end() && !(searching && rnd() % 4 == 0))
        x.v = it->second.v;
    else if (searching) {
        uint64_t d = hi - lo; // modulo 2^64: right for signed ranges too
        switch (rnd() % 10) {
            case 0: x.v = lo; break;
            case 1: x.v = d ? hi - rnd() % std::min<uint64_t>(d, 4) : hi; break;
            case 2: x.v = gen_int(bits); break;
            case 3: x.v = d == ~0ull ? rnd() : lo + rnd() % (d + 1); break;
            default: {
                uint64_t m = 1ull << (rnd() % (rnd() % 3 ? 7 : 13));
                x.v = lo + rnd() % (d < m ? d + 1 : m);
            }
        }
    }
    if (bits < 64)
        x.v &= (1ull << bits) - 1;
    tape[k] = x;
    order.push_back(k);
    return x.v;
}
void *vf_bytes(const char *name, size_t n) noexcept
{
    std::string k = key(name);
    if (n > (size_t)64 << 20)
        longjmp(out, 4);
    item x;
    x.bytes = true;
    auto it = base_tape.find(k);
    if (it != base_tape.end() && !(searching && rnd() % 3 == 0)) {
        x.b = it->second.b;
        x.b.resize(n);
        if (searching && n && rnd() % 2)
            x.b[rnd() % n] = rnd();
    } else {
        x.b.resize(n);
        if (searching)
            gen_bytes(x.b);
    }
    void *p = malloc(n ? n : 1);
    if (n == 0) {
        free(p);
        p = malloc(0);
    }
    if (n)
        memcpy(p, x.b.data(), n);
    blocks.push_back(p);
    tape[k] = x;
    order.push_back(k);
    return p;
}
void vf_require(bool c) noexcept
{
    if (!c)
        longjmp(out, 4);
}
void vf_lemma(bool, const char *) noexcept { }
void vf_step(bool, const char *) noexcept { }
void vf_ensure(bool c, const char *label) noexcept
{
    if (!c)
        fail(label);
}
void vf_cover(const char *) noexcept { }
void vf_observe(const char *label, uint64_t v) noexcept
{
    if (!searching && !quiet)
        printf("OBS %s %llu\n", label, (unsigned long long)v);
}
void vf_allow_exit(bool a) noexcept { allow_exit = a; }
uint64_t vf_obj_size(const void *) noexcept { return 0; }

void vf_missing()
{
    // a part of /repo that was not linked into the harness was reached: no verdict
    if (!running) // (by a static initialiser)
        return;
    longjmp(out, 4);
}
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int c)
{
    if (allow_exit)
        longjmp(out, 5);
    fail("program exits");
}
}

#include <common/log.hh>
namespace logging
{
__attribute__((weak)) bitflags<flag> mask;
__attribute__((weak)) bool enable_color_codes = false;
__attribute__((weak)) void print(flag, const char *) { }
__attribute__((weak)) void print(const char *) { }
__attribute__((weak)) void vprint(flag, fmt::string_view, fmt::format_args) { }
__attribute__((weak)) void vprint(fmt::string_view, fmt::format_args) { }
__attribute__((weak)) void header(const char *) { }
__attribute__((weak)) void percent(uint64_t, uint64_t, bool) { }
__attribute__((weak)) percent_clock::percent_clock(uint64_t) { }
__attribute__((weak)) void percent_clock::increase() { }
__attribute__((weak)) void percent_clock::operator()() { }
__attribute__((weak)) void percent_clock::print() { }
__attribute__((weak)) percent_clock::~percent_clock() { }
__attribute__((weak)) void assert_(bool success, const char *expr, const char *, int)
{
    if (!success) {
        if (allow_exit)
            longjmp(out, 5);
        static char buf[200];
        snprintf(buf, sizeof buf, "Q_assert(%s) failed", expr);
        fail(buf);
    }
}
} // namespace logging
__attribute__((weak)) [[noreturn]] void Error(const char *s) { throw ericwtools_error(s); }
__attribute__((weak)) [[noreturn]] void VError(fmt::string_view f, fmt::format_args a) { throw ericwtools_error(fmt::vformat(f, a).c_str()); }
__attribute__((weak)) ericwtools_error::ericwtools_error(const char *what) : std::runtime_error(what) { }

static int run_once(void (*fn)())
{
    uses.clear();
    tape.clear();
    order.clear();
    allow_exit = false;
    int r = setjmp(out);
    running = r == 0;
    if (r == 0) {
        try {
            fn();
        } catch (const std::bad_alloc &) {
            longjmp(out, 4);
        } catch (const std::exception &e) {
            static char buf[300];
            snprintf(buf, sizeof buf, "uncaught exception: %s", e.what());
            failed = buf;
            r = 3;
        } catch (...) {
            failed = "uncaught exception";
            r = 3;
        }
    }
    for (void *p : blocks)
        if (r == 0)
            free(p);
    blocks.clear();
    return r == 5 ? 0 : r;
}

int main(int argc, char **argv)
{
    if (argc < 4) {
        fprintf(stderr, "usage\n");
        _exit(2);
    }
    std::string sym = std::string("vfc_") + argv[1];
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, sym.c_str());
    if (!fn) {
        fprintf(stderr, "no contract %s\n", sym.c_str());
        _exit(2);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (!strcmp(argv[2], "replay")) {
        load_tape(argv[3]);
        quiet = false;
        alarm(60);
        int r = run_once(fn);
        printf("RESULT %s %s\n", r == 0 ? "pass" : r == 3 ? "fail" : "outside-precondition", r == 3 ? failed : "");
        fflush(stdout);
        _exit(r);
    }
    double secs = atof(argv[3]);
    uint64_t seed = strtoull(argv[4], nullptr, 10);
    const char *outp = argv[5];
    if (argc > 6)
        load_tape(argv[6]);
    shared = (shared_t *)mmap(nullptr, sizeof *shared, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9;
    };
    uint64_t start = 0, total = 0;
    while (elapsed() < secs) {
        int errpipe[2];
        if (pipe(errpipe))
            _exit(2);
        pid_t pid = fork();
        if (pid == 0) {
            dup2(errpipe[1], 2);
            close(errpipe[0]);
            searching = true;
            for (uint64_t i = start; elapsed() < secs; i++) {
                shared->iter = i;
                rng.seed(seed * 1000003ull + i);
                alarm(20);
                int r = run_once(fn);
                if (r == 3) {
                    snprintf(shared->last, sizeof shared->last, "%s", failed);
                    save_tape(outp);
                    _exit(3);
                }
            }
            _exit(0);
        }
        close(errpipe[1]);
        std::string err;
        char buf[4096];
        ssize_t n;
        while ((n = read(errpipe[0], buf, sizeof buf)) > 0)
            if (err.size() < 20000)
                err.append(buf, n);
        close(errpipe[0]);
        int st;
        waitpid(pid, &st, 0);
        total = shared->iter + 1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            printf("FOUND %s after %llu\n", shared->last, (unsigned long long)total);
            fflush(stdout);
            _exit(3);
        }
        // crashed: regenerate the tape of that iteration without running the code past the inputs
        bool harmless = err.find("pc points to the zero page") != std::string::npos ||
                        err.find("allocation-size-too-big") != std::string::npos ||
                        (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && false);
        if (!harmless) {
            // re-run in a child that saves the tape before each use by tracing inputs as they are drawn
            uint64_t it = shared->iter;
            pid_t p2 = fork();
            if (p2 == 0) {
                searching = true;
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 2);
                rng.seed(seed * 1000003ull + it);
                static const char *op;
                op = outp;
                struct sigaction sa = {};
                atexit([] {});
                // ASan/UBSan death callback
                auto set = (void (*)(void (*)()))dlsym(RTLD_DEFAULT, "__sanitizer_set_death_callback");
                if (set)
                    set([] { save_tape(op); });
                sa.sa_handler = [](int) {
                    save_tape(op);
                    _exit(3);
                };
                sigaction(SIGALRM, &sa, nullptr);
                sigaction(SIGABRT, &sa, nullptr);
                alarm(25);
                run_once(fn);
                save_tape(outp);
                _exit(3);
            }
            waitpid(p2, &st, 0);
            std::string first = err.substr(0, 1500);
            printf("FOUND the real code crashes (sanitizer or signal):\n%s\n", first.c_str());
            fflush(stdout);
            _exit(3);
        }
        start = shared->iter + 1;
    }
    printf("NONE after %llu\n", (unsigned long long)total);
    fflush(stdout);
    _exit(0);
}
