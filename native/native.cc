// Native runtime of the harness API: replays recorded inputs against the real compiled library.
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <string>
#include <typeinfo>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

struct VfEntry { const char* name; void (*fn)(); };
extern VfEntry vf_entries[];

namespace {
struct Val { char k; double r; uint64_t u; };
std::vector<Val> recorded_;
size_t cursor_;
bool float_mode, leak_ok;
int rfd = 2;
long live_allocs_;
bool counting;
double tol_scale = 1;

[[noreturn]] void finish_(const char* s, const char* m, double a = 0, double b = 0) {
    char buf[600];
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%.17g\t%.17g", s, m, a, b);
    if (write(rfd, buf, n)) {}
    _exit(s[0] == 'f' ? 3 : 77);
}
Val next_rec_(char k) {
    if (cursor_ >= recorded_.size()) finish_("short", "ran out of recorded inputs");
    Val v = recorded_[cursor_++];
    if (k == 'u' ? v.k != 'u' : v.k == 'u') finish_("short", "recorded input of another kind");
    return v;
}
bool close_to(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= tol * tol_scale * s;
}
}

#ifndef VF_SAN
static int fill_ = -1;
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p || n > ((size_t)1 << 40)) throw std::bad_alloc();
    if (fill_ >= 0) memset(p, fill_, n);
    if (counting) __atomic_add_fetch(&live_allocs_, 1, __ATOMIC_RELAXED);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p && counting) __atomic_sub_fetch(&live_allocs_, 1, __ATOMIC_RELAXED); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

#undef vf_choose
extern "C" {
double vf_real(const char*) { Val v = next_rec_('r'); if (v.k == 'b') { double d; memcpy(&d, &v.u, 8); return d; } return v.r; }
float vf_realf(const char*) {
    Val v = next_rec_('r');
    if (v.k == 'b') { uint32_t w = (uint32_t)v.u; float f; memcpy(&f, &w, 4); return f; }
    return (float)v.r;
}
unsigned long vf_u64(const char*, unsigned long lo, unsigned long hi) {
    Val v = next_rec_('u'); if (v.u < lo || v.u > hi) finish_("prune", "u64 range"); return v.u;
}
unsigned long vf_choose(const char* n, unsigned long lo, unsigned long hi) { return vf_u64(n, lo, hi); }
unsigned long vf_concretize(unsigned long v) { return v; }
void vf_assume(bool b) { if (!b) finish_("prune", "assume"); }
void vf_assume_pos(double x) { vf_assume(x > 0); }
void vf_assume_posf(float x) { vf_assume(x > 0); }
void vf_assume_nz(double x) { vf_assume(x != 0); }
void vf_assume_nzf(float x) { vf_assume(x != 0); }
void vf_assume_nonneg(double x) { vf_assume(x >= 0); }
void vf_check(bool b, const char* m) { if (!b) finish_("fail", m); }
void vf_check_u64(unsigned long a, unsigned long b, const char* m) { if (a != b) finish_("fail", m, a, b); }
void vf_check_eqf(float a, float b, const char* m) { if (!close_to(a, b, 2e-3)) finish_("fail", m, a, b); }
void vf_check_eq(double a, double b, const char* m) { if (!close_to(a, b, float_mode ? 2e-3 : 1e-7)) finish_("fail", m, a, b); }
void vf_check_same(double a, double b, const char* m) {
    if (std::isnan(a) && std::isnan(b)) return;
    if (memcmp(&a, &b, 8)) finish_("fail", m, a, b);
}
void vf_check_samef(float a, float b, const char* m) {
    if (std::isnan(a) && std::isnan(b)) return;
    if (memcmp(&a, &b, 4)) finish_("fail", m, a, b);
}
void vf_reach(const char*) {}
void vf_fail(const char* m) { finish_("fail", m); }
void vf_float_mode() { float_mode = true; }
void vf_leak_ok() { leak_ok = true; }
void vf_reuse() {}
void vf_flush() {}
bool vf_is_nan(double x) { return std::isnan(x); }
bool vf_is_finite(double x) { return std::isfinite(x); }
int vf_symbolic() { return 0; }
}

static void run_case_(void (*fn)()) {
    try {
#ifndef VF_SAN
        live_allocs_ = 0; counting = true;
#endif
        fn();
#ifndef VF_SAN
        counting = false;
        if (live_allocs_ > 0 && !leak_ok && getenv("VF_LEAK")) {
            // storage kept for later calls is no leak: what counts is that a second run keeps more
            cursor_ = 0; live_allocs_ = 0; counting = true;
            fn();
            counting = false;
        }
        if (live_allocs_ > 0 && !leak_ok && getenv("VF_LEAK")) finish_("fail", "memory still allocated at the end");
#endif
    } catch (const std::exception& e) {
        std::string s = std::string("exception ") + typeid(e).name();
        finish_("fail", s.c_str());
    } catch (...) {
        finish_("fail", "exception of unknown type");
    }
    finish_("ok", "");
}

int main(int argc, char** argv) {
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    bool nofork = getenv("VF_NOFORK") != nullptr;
    int secs = getenv("VF_ALARM") ? atoi(getenv("VF_ALARM")) : 10;
    if (getenv("VF_TOL")) tol_scale = atof(getenv("VF_TOL"));
#ifndef VF_SAN
    if (getenv("VF_FILL")) fill_ = atoi(getenv("VF_FILL"));
#endif
    char line[1024], name[256] = "";
    int idx = 0;
    while (fgets(line, sizeof line, f)) {
        char* p = line;
        while (*p == ' ') ++p;
        if (*p == 'E') { sscanf(p + 1, "%255s", name); recorded_.clear(); }
        else if (*p == 'r') { Val v{'r', strtod(p + 1, nullptr), 0}; recorded_.push_back(v); }
        else if (*p == 'u') { Val v{'u', 0, strtoull(p + 1, nullptr, 10)}; recorded_.push_back(v); }
        else if (*p == 'b') { Val v{'b', 0, strtoull(p + 1, nullptr, 16)}; recorded_.push_back(v); }
        else if (*p == '.') {
            void (*fn)() = nullptr;
            for (VfEntry* e = vf_entries; e->name; ++e) if (!strcmp(e->name, name)) fn = e->fn;
            if (!fn) { printf("%d\tnoentry\t%s\n", idx++, name); continue; }
            cursor_ = 0;
            if (nofork) { rfd = 1; run_case_(fn); }
            int pp[2];
            if (pipe(pp)) return 2;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                close(pp[0]); rfd = pp[1];
                if (secs) alarm(secs);
                rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef VF_SAN
                rl.rlim_cur = rl.rlim_max = (rlim_t)8 << 30; setrlimit(RLIMIT_AS, &rl);
#endif
#ifdef _OPENMP
                // called from a parallel region of the user: the library's own regions then get a single thread
                if (getenv("VF_NESTED")) {
                    #pragma omp parallel num_threads(2)
                    {
                        #pragma omp master
                        run_case_(fn);
                        #pragma omp barrier
                    }
                }
#endif
                run_case_(fn);
            }
            close(pp[1]);
            char buf[700]; ssize_t n, t = 0;
            while (t < 690 && (n = read(pp[0], buf + t, 690 - t)) > 0) t += n;
            buf[t] = 0; close(pp[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) printf("%d\tsignal\t%d\n", idx, WTERMSIG(st));
            else if (t) printf("%d\t%s\n", idx, buf);
            else printf("%d\texit\t%d\n", idx, WEXITSTATUS(st));
            ++idx;
        }
    }
    return 0;
}
