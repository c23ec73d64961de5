// Native side of symx.h: runs a harness entry on concrete inputs, one forked child per case.
// usage: prog CASES OUT [TIMEOUT]   CASES: lines "id entry params|- model|-"
// OUT: lines "id STATUS detail | obs..." ; STATUS is ok, assume, fail, crash, hang
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static std::vector<int64_t> params;
static std::vector<unsigned char> model;
static size_t pos = 0;
static FILE* obs = nullptr;
static volatile long live = 0;

#if defined(__SANITIZE_ADDRESS__) || defined(HX_ASAN)
#include <sanitizer/allocator_interface.h>
static void onMalloc(const volatile void*, size_t) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); }
static void onFree(const volatile void* p) { if (p) __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); }
#endif

extern "C" {
void symx_symbolic(void* p, size_t n, const char*)
{
    for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = pos < model.size() ? model[pos++] : 0;
}
static void finish(const char* s, const char* m)
{
    fprintf(obs, "\n%s %s\n", s, m);
    fflush(obs);
    _exit(0);
}
void symx_assume(bool c) { if (!c) finish("assume", ""); }
void symx_check(bool c, const char* m) { if (!c) finish("fail", m); }
void symx_fail(const char* m) { finish("fail", m); abort(); }
void symx_reach(const char*) {}
int64_t symx_param(int i) { return (size_t)i < params.size() ? params[i] : 0; }
void symx_observe(uint64_t v) { fprintf(obs, " %llu", (unsigned long long)v); }
uint64_t symx_heap_live(void) { return (uint64_t)live; }
uint64_t symx_conc(uint64_t v) { return v; }
uint64_t symx_opaque(uint64_t v) { return v; }
void symx_print(const char*, uint64_t) {}
int symx_is_native(void) { return 1; }
struct Conc { uint64_t (*f)(const void*); const void* arg; uint64_t r; int* ready; };
static void* concRun(void* p)
{
    Conc* c = (Conc*)p;
    __atomic_add_fetch(c->ready, 1, __ATOMIC_RELAXED);
    while (__atomic_load_n(c->ready, __ATOMIC_RELAXED) < 2) {}
    c->r = c->f(c->arg);
    return nullptr;
}
void symx_freeze(int) {}
uint64_t symx_concurrent(uint64_t (*f)(const void*), const void* arg)
{
    int ready = 0;
    Conc c[2] = { { f, arg, 0, &ready }, { f, arg, 0, &ready } };
    pthread_t t[2];
    for (int i = 0; i < 2; i++) pthread_create(&t[i], nullptr, concRun, &c[i]);
    for (int i = 0; i < 2; i++) pthread_join(t[i], nullptr);
    symx_check(c[0].r == c[1].r, "two threads get different results");
    return c[0].r;
}
void symx_done(void) { finish("ok", ""); abort(); }
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_stack_use_after_return=1:symbolize=0:print_legend=0"; }
const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }
const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1:symbolize=0"; }
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    int timeout = argc > 3 ? atoi(argv[3]) : 10;
    FILE* in = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    static char line[1 << 16];
    while (fgets(line, sizeof line, in)) {
        char id[256], entry[256];
        static char ps[1 << 15], ms[1 << 15];
        if (sscanf(line, "%255s %255s %32767s %32767s", id, entry, ps, ms) != 4) continue;
        params.clear(); model.clear(); pos = 0;
        if (strcmp(ps, "-")) for (char* t = strtok(ps, ","); t; t = strtok(nullptr, ",")) params.push_back(atoll(t));
        if (strcmp(ms, "-")) for (size_t i = 0; ms[i] && ms[i + 1]; i += 2) { unsigned v; sscanf(ms + i, "%2x", &v); model.push_back(v); }
        int fd[2], ed[2];
        if (pipe(fd) || pipe(ed)) return 2;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]); close(ed[0]);
            dup2(ed[1], 2);
            obs = fdopen(fd[1], "w");
            static char big[1 << 16];
            setvbuf(obs, big, _IOFBF, sizeof big);
            void (*f)() = (void (*)())dlsym(nullptr, entry);
            if (!f) { finish("noentry", entry); }
#if defined(__SANITIZE_ADDRESS__) || defined(HX_ASAN)
            __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
            alarm(timeout);
            f();
            finish("ok", "");
        }
        close(fd[1]); close(ed[1]);
        std::string so, se;
        struct pollfd pf[2] = { { fd[0], POLLIN, 0 }, { ed[0], POLLIN, 0 } };
        int open = 2;
        while (open) {
            poll(pf, 2, -1);
            for (int k = 0; k < 2; k++) {
                if (pf[k].fd < 0 || !pf[k].revents) continue;
                char b[4096];
                ssize_t r = read(pf[k].fd, b, sizeof b);
                if (r <= 0) { close(pf[k].fd); pf[k].fd = -1; open--; continue; }
                std::string& s = k ? se : so;
                if (s.size() < 16000000) s.append(b, r);
            }
        }
        int st;
        waitpid(pid, &st, 0);
        std::string obsText, status = "crash", detail;
        size_t nl = so.find('\n');
        obsText = so.substr(0, nl);
        if (nl != std::string::npos) {
            std::string rest = so.substr(nl + 1);
            size_t sp = rest.find(' '), e = rest.find('\n');
            status = rest.substr(0, sp);
            detail = rest.substr(sp + 1, e - sp - 1);
        }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) status = "hang";
        else if (se.find("FATAL: ThreadSanitizer") != std::string::npos) status = "unavailable"; // it cannot run here
        else {
            char b[64];
            if (WIFSIGNALED(st)) snprintf(b, 64, "signal %d ", WTERMSIG(st));
            else snprintf(b, 64, "exit %d ", WEXITSTATUS(st));
            detail = b;
            for (const char* key : { "ERROR: AddressSanitizer", "runtime error:", "terminate called", "what():", "Assertion", "WARNING: ThreadSanitizer" }) {
                size_t k = se.find(key);
                if (k != std::string::npos) { size_t e = se.find('\n', k); detail += se.substr(k, std::min<size_t>(e - k, 200)) + "; "; }
            }
        }
        fprintf(out, "%s %s %s |%s\n", id, status.c_str(), detail.c_str(), obsText.c_str());
    }
    fclose(out);
    return 0;
}
