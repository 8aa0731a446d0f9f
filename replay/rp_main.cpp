#include "rp.h"
#include <sys/time.h>

namespace rp {
char current[256];
std::string log_;
static long g_live = 0;
static int g_poison = 0xA5;
long live() { return g_live; }

void note(const char *fmt, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (log_.size() < 6000) { log_ += b; log_ += "\n"; }
}

void fail(const char *fmt, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    printf("FAIL %s\n%s\n%s", current, b, log_.c_str());
    fflush(stdout);
    _exit(1);
}

static void onsig(int s) {
    char b[400];
    int n = snprintf(b, sizeof b, "FAIL %s\n%s\n", current, s == SIGALRM ? "the call does not return" : s == SIGABRT ? "an assertion of the library fails (abort)" : "crash");
    if (write(1, b, n)) {}
    _exit(1);
}
} // namespace rp

extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void dead() {
    char b[400];
    int n = snprintf(b, sizeof b, "FAIL %s\ninvalid memory access or undefined behaviour (sanitizer)\n", rp::current);
    if (write(1, b, n)) {}
    _exit(1);
}

// undefined behaviour found by the sanitizer
extern "C" void __ubsan_on_report(void) { dead(); }

// every allocation is counted, fresh memory is poisoned with a signalling pattern
void *operator new(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, rp::g_poison, n);
    ++rp::g_live;
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { --rp::g_live; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

int main(int argc, char **argv) {
    using namespace rp;
    std::string prop, only;
    uint64_t seed = 1;
    long cases = 1000, one = -1;
    double limit = 1e9;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[i + 1];
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        if (a == "--cases") cases = atol(argv[i + 1]);
        if (a == "--test") only = argv[i + 1];
        if (a == "--case") one = atol(argv[i + 1]);
        if (a == "--time") limit = atof(argv[i + 1]);
    }
    signal(SIGALRM, onsig);
    signal(SIGABRT, onsig);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(dead);
#else
    signal(SIGSEGV, onsig);
    signal(SIGFPE, onsig);
#endif
    log_.reserve(8192);
    struct timeval t0, t1;
    gettimeofday(&t0, 0);
    long done = 0;
    int nt = 0;
    for (auto &t : tests()) if (std::string(t.prop).find(prop) != std::string::npos && (only.empty() || only == t.name)) ++nt;
    int kt = 0;
    for (auto &t : tests()) {
        if (std::string(t.prop).find(prop) == std::string::npos || (!only.empty() && only != t.name)) continue;
        ++kt;
        long n = cases * t.weight / 10;
        if (n < 1) n = 1;
        long ran = 0;
        for (long k = 0; k < n; ++k) {
            if (one >= 0 && k != one) continue;
            snprintf(current, sizeof current, "test=%s case=%ld seed=%llu", t.name, k, (unsigned long long)seed);
            log_.clear();
            g_poison = (k & 1) ? 0xFF : 0xA5;        // fresh memory holds NaN in every other case
            Rng r(seed * 1000003 + k * 7919 + std::hash<std::string>()(t.name) % 100003);
            alarm(20);
            t.fn(r);
            alarm(0);
            ++ran;
            if ((k & 15) == 0) {
                gettimeofday(&t1, 0);
                if ((t1.tv_sec - t0.tv_sec) + (t1.tv_usec - t0.tv_usec) * 1e-6 > limit * kt / nt) break;
            }
        }
        printf("OK test=%s cases=%ld\n", t.name, ran);
        done += ran;
    }
    printf("DONE %ld\n", done);
    fflush(stdout);
    _exit(0);
}
