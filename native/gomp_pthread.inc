// libgomp entry points on plain pthreads, so that ThreadSanitizer sees every synchronisation of a parallel region
// (libgomp's own futex code is invisible to it).  Linked before libgomp; only what it leaves out comes from there.
#include <pthread.h>
extern "C" {
struct VfTeam {
    unsigned n; void (*fn)(void*); void* data;
    pthread_mutex_t m; pthread_cond_t c; unsigned arrived, gen;
    pthread_mutex_t wm; unsigned long singles; unsigned long long wlo, whi, wstep, wchunk; unsigned wcount; bool wopen;
};
static __thread VfTeam* vf_team_; static __thread unsigned vf_tid_; static __thread unsigned long vf_single_;
static __thread unsigned vf_teamno_, vf_nteams_, vf_teamsleft_;
static pthread_mutex_t vf_crit_ = PTHREAD_MUTEX_INITIALIZER, vf_atom_ = PTHREAD_MUTEX_INITIALIZER;
static unsigned vf_threads_() { const char* s = getenv("OMP_NUM_THREADS"); int n = s ? atoi(s) : 4; return n > 0 ? n : 4; }
struct VfArg { VfTeam* t; unsigned i, teamno, nteams; };
static void* vf_thread_(void* p) {
    VfArg a = *(VfArg*)p; vf_team_ = a.t; vf_tid_ = a.i; vf_single_ = 0; vf_teamno_ = a.teamno; vf_nteams_ = a.nteams;
    a.t->fn(a.t->data); return nullptr;
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
    if (vf_team_) n = 1;
    if (n == 0) n = vf_threads_();
    VfTeam* save = vf_team_; unsigned st = vf_tid_; unsigned long ss = vf_single_;
    VfTeam t{}; t.n = n; t.fn = fn; t.data = data;
    pthread_mutex_init(&t.m, nullptr); pthread_mutex_init(&t.wm, nullptr); pthread_cond_init(&t.c, nullptr);
    pthread_t th[256]; VfArg a[256];
    if (n > 256) n = t.n = 256;
    for (unsigned i = 1; i < n; ++i) { a[i] = {&t, i, vf_teamno_, vf_nteams_}; pthread_create(&th[i], nullptr, vf_thread_, &a[i]); }
    vf_team_ = &t; vf_tid_ = 0; vf_single_ = 0;
    fn(data);
    for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr);
    vf_team_ = save; vf_tid_ = st; vf_single_ = ss;
}
int omp_get_num_threads() { return vf_team_ ? (int)vf_team_->n : 1; }
int omp_get_thread_num() { return (int)vf_tid_; }
int omp_get_max_threads() { return (int)vf_threads_(); }
int omp_in_parallel() { return vf_team_ && vf_team_->n > 1; }
void GOMP_barrier() {
    VfTeam* t = vf_team_; if (!t) return;
    pthread_mutex_lock(&t->m);
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; t->wopen = false; pthread_cond_broadcast(&t->c); }
    else while (g == t->gen) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}
void GOMP_critical_start() { pthread_mutex_lock(&vf_crit_); }
void GOMP_critical_end() { pthread_mutex_unlock(&vf_crit_); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&vf_crit_); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&vf_crit_); }
void GOMP_atomic_start() { pthread_mutex_lock(&vf_atom_); }
void GOMP_atomic_end() { pthread_mutex_unlock(&vf_atom_); }
bool GOMP_single_start() {
    VfTeam* t = vf_team_; if (!t) return true;
    pthread_mutex_lock(&t->wm);
    bool mine = ++vf_single_ > t->singles; if (mine) t->singles = vf_single_;
    pthread_mutex_unlock(&t->wm);
    return mine;
}
#define VF_DYN(name, T) \
bool GOMP_loop_##name##_next(T* s, T* e) { \
    VfTeam* t = vf_team_; pthread_mutex_lock(&t->wm); \
    bool r = t->wlo < t->whi; \
    if (r) { unsigned long long k = t->wchunk * t->wstep; *s = (T)t->wlo; t->wlo = t->wlo + k < t->whi ? t->wlo + k : t->whi; *e = (T)t->wlo; } \
    pthread_mutex_unlock(&t->wm); return r; } \
bool GOMP_loop_##name##_start(T lo, T hi, T inc, T chunk, T* s, T* e) { \
    VfTeam* t = vf_team_; pthread_mutex_lock(&t->wm); \
    if (!t->wopen) { t->wopen = true; t->wlo = lo; t->whi = hi; t->wstep = inc; t->wchunk = chunk ? chunk : 1; } \
    pthread_mutex_unlock(&t->wm); return GOMP_loop_##name##_next(s, e); }
#define VF_DYNU(name) \
bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return GOMP_loop_x##name##_next(s, e); } \
bool GOMP_loop_ull_##name##_start(bool, unsigned long long lo, unsigned long long hi, unsigned long long inc, unsigned long long c, unsigned long long* s, unsigned long long* e) { return GOMP_loop_x##name##_start(lo, hi, inc, c, s, e); }
VF_DYN(nonmonotonic_dynamic, long) VF_DYN(dynamic, long) VF_DYN(nonmonotonic_guided, long) VF_DYN(guided, long)
VF_DYN(xnonmonotonic_dynamic, unsigned long long) VF_DYN(xdynamic, unsigned long long) VF_DYN(xnonmonotonic_guided, unsigned long long)
VF_DYNU(nonmonotonic_dynamic) VF_DYNU(dynamic) VF_DYNU(nonmonotonic_guided)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
// offloaded regions run on the host
void GOMP_target_ext(int, void (*fn)(void*), size_t, void** host, size_t*, unsigned short*, unsigned, void**, void**) {
    VfTeam* save = vf_team_; vf_team_ = nullptr; fn(host); vf_team_ = save;
}
bool GOMP_teams4(unsigned, unsigned hi, unsigned, bool first) {
    if (first) { vf_nteams_ = hi ? hi : 3; if (vf_nteams_ > 16) vf_nteams_ = 16; vf_teamno_ = 0; return true; }
    if (++vf_teamno_ < vf_nteams_) return true;
    vf_nteams_ = 0; vf_teamno_ = 0; return false;
}
int omp_get_num_teams() { return vf_nteams_ ? (int)vf_nteams_ : 1; }
int omp_get_team_num() { return (int)vf_teamno_; }
}
