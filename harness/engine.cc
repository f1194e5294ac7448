#include "engine.h"
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <spawn.h>
#include <ftw.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <algorithm>

extern char **environ;

static std::vector<Part> &parts() { static std::vector<Part> p; return p; }
void register_part(const Part &p) { parts().push_back(p); }

Str strf(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    char *out = nullptr;
    int n = vasprintf(&out, fmt, ap);
    va_end(ap);
    Str s = n >= 0 ? Str(out, n) : Str("?");
    free(out);
    return s;
}
Str hex(const Str &s)
{
    static const char *d = "0123456789abcdef"; Str o;
    for (unsigned char c : s) { o += d[c>>4]; o += d[c&15]; }
    return o;
}
Str vis(const Str &s, size_t max)
{
    Str o;
    for (unsigned char c : s)
    {
        if (o.size() > max) { o += "..."; break; }
        if (c == '\n') o += "\\n";
        else if (c == '\r') o += "\\r";
        else if (c == '\t') o += "\\t";
        else if (c == '\\') o += "\\\\";
        else if (c < 32 || c == 127) o += strf("\\x%02x", c);
        else o += (char)c;
    }
    return o;
}
uint64_t fnv(const Str &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t Gen::next64()
{
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
}
uint32_t Gen::below(uint32_t n)
{
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying)
    {
        v = pos < rn ? replay[pos] : 0;
        if (v >= n) v = v % n;
    }
    else v = (uint32_t)(next64() % n);
    if (pos < cap) { rec[pos] = v; *reclen = pos+1; }
    else
    {
        overflow = true;
        v = 0; // run out of choices: only simplest from here on
    }
    pos++;
    return v;
}
bool Gen::chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
size_t Gen::pick(const std::vector<uint32_t> &w)
{
    uint32_t t = 0; for (auto x : w) t += x;
    uint32_t v = below(t);
    for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
    return 0;
}
size_t Gen::size(size_t max)
{
    size_t lim = 3;
    switch (below(8)) { case 0: case 1: case 2: lim = 2; break; case 3: case 4: lim = 4; break; case 5: lim = 8; break; case 6: lim = 16; break; default: lim = max; }
    if (lim > max) lim = max;
    return below((uint32_t)lim+1);
}

// ---------------------------------------------------------------------------------------------- shared memory
static const size_t MAXCHOICES = 60000;
static const size_t MAXMSG = 60000;
struct Shm
{
    volatile uint32_t reclen;
    volatile uint32_t outcome;   // 0 running, 1 batch done, 2 failed, 3 case ok(single run), 4 discarded
    volatile uint64_t cur_case;
    uint32_t rec[MAXCHOICES];
    char kind[256];
    char msg[MAXMSG];
    char rend[MAXMSG];
    volatile uint32_t rendlen;
};
static Shm *cur_shm = nullptr;

void Ctx::show(const Str &s)
{
    rendering += s;
    if (rendering.empty() || rendering.back() != '\n') rendering += "\n";
    if (cur_shm)
    {
        size_t n = std::min(rendering.size(), MAXMSG-1);
        memcpy(cur_shm->rend, rendering.data(), n);
        cur_shm->rend[n] = 0;
        cur_shm->rendlen = n;
    }
}
void Ctx::nontrivially(bool b, const Str &key)
{
    nt = b;
    hash = fnv(key);
}

// ---------------------------------------------------------------------------------------------- helpers
bool write_file(const Str &path, const Str &content)
{
    FILE *f = fopen(path.c_str(), "wb");
    if (!f) return false;
    size_t n = fwrite(content.data(), 1, content.size(), f);
    return fclose(f) == 0 && n == content.size();
}
bool read_file(const Str &path, Str &content)
{
    FILE *f = fopen(path.c_str(), "rb");
    if (!f) return false;
    content.clear();
    char buf[65536]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) content.append(buf, n);
    fclose(f);
    return true;
}
static Str g_cli;
Str cli_path() { return g_cli; }

static void set_limits_child()
{
    struct rlimit rl;
    rl.rlim_cur = 20; rl.rlim_max = 22; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}
RunResult run_program(const std::vector<Str> &argv, const Str &in, const Str &dir, const std::vector<Str> &env_add)
{
    RunResult r;
    int pi[2], po[2], pe[2];
    if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) throw Fail("harness", "pipe failed");
    std::vector<char*> av; for (auto &a : argv) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    static const char *fixed[] = { "PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8", "XMQ_BG=MONO", "TERM=dumb",
        "ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:malloc_fill_byte=85:max_malloc_fill_size=65536",
        "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99" };
    std::vector<char*> ev; for (auto f : fixed) ev.push_back((char*)f);
    for (auto &e : env_add) ev.push_back((char*)e.c_str());
    ev.push_back(nullptr);
    pid_t pid = vfork();
    if (pid == 0)
    {
        dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
        if (chdir(dir.c_str())) _exit(126);
        set_limits_child();
        execve(av[0], av.data(), ev.data());
        _exit(127);
    }
    close(pi[0]); close(po[1]); close(pe[1]);
    if (pid < 0) throw Fail("harness", "fork failed");
    fcntl(pi[1], F_SETFL, O_NONBLOCK);
    size_t off = 0; bool in_open = true, oo = true, eo = true;
    if (in.empty()) { close(pi[1]); in_open = false; }
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    while (oo || eo)
    {
        struct pollfd fds[3]; int n = 0; int io=-1, ie=-1, ii=-1;
        if (oo) { fds[n] = { po[0], POLLIN, 0 }; io = n++; }
        if (eo) { fds[n] = { pe[0], POLLIN, 0 }; ie = n++; }
        if (in_open) { fds[n] = { pi[1], POLLOUT, 0 }; ii = n++; }
        int rc = poll(fds, n, 1000);
        struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > 120) { r.timeout = true; kill(pid, SIGKILL); break; }
        if (rc <= 0) continue;
        char buf[65536];
        if (io >= 0 && fds[io].revents) { ssize_t k = read(po[0], buf, sizeof buf); if (k > 0) r.out.append(buf, k); else oo = false; }
        if (ie >= 0 && fds[ie].revents) { ssize_t k = read(pe[0], buf, sizeof buf); if (k > 0) r.err.append(buf, k); else eo = false; }
        if (ii >= 0 && fds[ii].revents)
        {
            ssize_t k = write(pi[1], in.data()+off, in.size()-off);
            if (k > 0) off += k;
            if ((k < 0 && errno != EAGAIN) || off >= in.size()) { close(pi[1]); in_open = false; }
        }
        if (r.out.size() > 64u<<20 || r.err.size() > 64u<<20) { r.timeout = true; kill(pid, SIGKILL); break; }
    }
    if (in_open) close(pi[1]);
    close(po[0]); close(pe[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    r.status = st;
    if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
    else if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); }
    return r;
}

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rm_tree(const Str &p) { if (p.size() > 8 && p.compare(0, 5, "/tmp/") == 0) nftw(p.c_str(), rm_cb, 32, FTW_DEPTH|FTW_PHYS); }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec/1e9; }

// ---------------------------------------------------------------------------------------------- running cases
static const int CASE_CPU_S = 20;
static void arm_timer(int s)
{
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void run_one(const Part &p, Gen &g, Ctx &c)
{
    c.rendering.clear(); c.nt = false; c.hash = 0;
    if (cur_shm) { cur_shm->rendlen = 0; cur_shm->rend[0] = 0; }
    p.run(g, c);
}
static void seed_gen(Gen &g, uint64_t seed, const Part &p, uint64_t idx)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ fnv(Str(p.prop)+"/"+p.name) ^ (idx * 0xd1342543de82ef95ull);
    g.s[0] = splitmix(x); g.s[1] = splitmix(x) | 1;
    g.next64(); g.next64();
}
static void put_fail(Shm *sh, const Str &kind, const Str &msg)
{
    snprintf(sh->kind, sizeof sh->kind, "%s", kind.c_str());
    size_t n = std::min(msg.size(), MAXMSG-1);
    memcpy(sh->msg, msg.data(), n); sh->msg[n] = 0;
    sh->outcome = 2;
}
static void merge_write(const Ctx &c, const Str &file)
{
    FILE *f = fopen(file.c_str(), "wb");
    if (!f) return;
    fprintf(f, "%llu %llu %llu\n", (unsigned long long)c.evals, (unsigned long long)c.discards, (unsigned long long)c.nontrivial);
    fprintf(f, "%zu\n", c.labels.size());
    for (auto &l : c.labels) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    fprintf(f, "%zu\n", c.known.size());
    for (auto &l : c.known) fprintf(f, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    fprintf(f, "%zu\n", c.samples.size());
    for (auto &s : c.samples) { fprintf(f, "%zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
    fprintf(f, "%zu\n", c.hashes.size());
    for (auto h : c.hashes) fprintf(f, "%llx\n", (unsigned long long)h);
    fclose(f);
}
static void merge_read(Ctx &c, const Str &file)
{
    FILE *f = fopen(file.c_str(), "rb");
    if (!f) return;
    unsigned long long a=0,b=0,d=0; size_t n=0; char buf[4096];
    if (fscanf(f, "%llu %llu %llu\n", &a, &b, &d) == 3) { c.evals += a; c.discards += b; c.nontrivial += d; }
    if (fscanf(f, "%zu\n", &n) == 1) for (size_t i = 0; i < n; ++i) { if (fscanf(f, "%llu ", &a) != 1) break; if (!fgets(buf, sizeof buf, f)) break; Str k = buf; while (!k.empty() && k.back()=='\n') k.pop_back(); c.labels[k] += a; }
    if (fscanf(f, "%zu\n", &n) == 1) for (size_t i = 0; i < n; ++i) { if (fscanf(f, "%llu ", &a) != 1) break; if (!fgets(buf, sizeof buf, f)) break; Str k = buf; while (!k.empty() && k.back()=='\n') k.pop_back(); c.known[k] += a; }
    if (fscanf(f, "%zu", &n) == 1) { fgetc(f); for (size_t i = 0; i < n; ++i) { size_t l; if (fscanf(f, "%zu", &l) != 1) break; fgetc(f); Str s(l, 0); if (fread(&s[0], 1, l, f) != l) break; fgetc(f); if (c.samples.size() < 24) c.samples.push_back(s); } }
    if (fscanf(f, "%zu\n", &n) == 1) for (size_t i = 0; i < n; ++i) { if (fscanf(f, "%llx\n", &a) != 1) break; c.hashes.insert(a); }
    fclose(f);
}

static void redirect_child(const Str &errfile)
{
    int fd = open("/dev/null", O_RDONLY); dup2(fd, 0); close(fd);
    fd = open(errfile.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}
struct SingleOut { bool failed=false; bool discarded=false; Str kind, msg, rend; std::vector<uint32_t> used; };

static Shm *new_shm()
{
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shm*)p;
}
static Str crash_kind(int st, const Str &errfile, Str &msg)
{
    Str err; read_file(errfile, err);
    Str kind;
    if (WIFSIGNALED(st))
    {
        int sig = WTERMSIG(st);
        if (sig == SIGPROF || sig == SIGXCPU) { kind = "hang"; msg = strf("no result after %d s of cpu time", CASE_CPU_S); }
        else { kind = "crash"; msg = strf("killed by signal %d (%s)", sig, strsignal(sig)); }
    }
    else { kind = "exit"; msg = strf("the library ended the process with exit status %d", WEXITSTATUS(st)); }
    size_t p = err.find("ERROR: AddressSanitizer");
    size_t q = err.find("runtime error:");
    size_t a = err.find("Assertion");
    if (p != Str::npos) { kind = "asan"; size_t e = err.find("\n", p); msg += "; " + err.substr(p, e-p);
        size_t pos = p; int n = 0; while (n < 6 && (pos = err.find("\n    #", pos+1)) != Str::npos) { size_t e2 = err.find("\n", pos+1); msg += "\n  " + err.substr(pos+1, e2-pos-1); n++; } }
    else if (q != Str::npos) { kind = "ubsan"; size_t b = err.rfind("\n", q); b = b==Str::npos?0:b+1; size_t e = err.find("\n", q); msg += "; " + err.substr(b, e-b); }
    else if (a != Str::npos) { kind = "assert"; size_t b = err.rfind("\n", a); b = b==Str::npos?0:b+1; size_t e = err.find("\n", a); msg += "; " + err.substr(b, e-b); }
    else msg += "; last output: " + vis(err.size() > 400 ? err.substr(err.size()-400) : err);
    return kind;
}
static SingleOut run_single(const Part &p, const std::vector<uint32_t> &choices, const Str &scratch)
{
    static Shm *sh = new_shm();
    memset((void*)sh, 0, offsetof(Shm, rec)); sh->reclen = 0; sh->outcome = 0; sh->kind[0] = 0; sh->msg[0] = 0; sh->rend[0] = 0;
    Str errfile = scratch + "/single.err";
    Str dir = scratch + "/single"; mkdir(dir.c_str(), 0700);
    pid_t pid = fork();
    if (pid == 0)
    {
        redirect_child(errfile);
        cur_shm = sh;
        arm_timer(CASE_CPU_S);
        Gen g; g.replaying = true; g.replay = choices.data(); g.rn = choices.size(); g.rec = sh->rec; g.reclen = &sh->reclen; g.cap = MAXCHOICES;
        g.s[0]=1; g.s[1]=2;
        Ctx c; c.scratch = dir;
        try { run_one(p, g, c); sh->outcome = 3; }
        catch (Fail &f) { put_fail(sh, f.kind, f.msg); }
        catch (Discard &) { sh->outcome = 4; }
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    SingleOut o;
    o.used.assign(sh->rec, sh->rec + std::min<size_t>(sh->reclen, MAXCHOICES));
    o.rend = sh->rend;
    if (sh->outcome == 2) { o.failed = true; o.kind = sh->kind; o.msg = sh->msg; }
    else if (sh->outcome == 4) o.discarded = true;
    else if (sh->outcome == 3 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
    else { o.failed = true; o.kind = crash_kind(st, errfile, o.msg); }
    rm_tree(dir);
    return o;
}

static bool smaller(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
static SingleOut shrink(const Part &p, SingleOut best, const Str &scratch, int max_runs, double max_s)
{
    double t0 = now(); int runs = 0;
    auto attempt = [&](const std::vector<uint32_t> &cand) -> bool {
        if (runs >= max_runs || now()-t0 > max_s) return false;
        runs++;
        SingleOut o = run_single(p, cand, scratch);
        if (o.failed && o.kind == best.kind && smaller(o.used, best.used)) { best = o; return true; }
        return false;
    };
    bool progress = true;
    // trailing truncation first
    while (progress && runs < max_runs && now()-t0 <= max_s)
    {
        progress = false;
        for (size_t len = best.used.size(); len >= 1; len = len/2)
        {
            for (size_t i = 0; i + 1 <= best.used.size() ; )
            {
                size_t l = std::min(len, best.used.size()-i);
                std::vector<uint32_t> c(best.used.begin(), best.used.begin()+i);
                c.insert(c.end(), best.used.begin()+i+l, best.used.end());
                if (attempt(c)) { progress = true; } else i += std::max<size_t>(1, len);
                if (runs >= max_runs || now()-t0 > max_s) break;
            }
            if (len == 1) break;
        }
        for (size_t len = std::min<size_t>(best.used.size(), 32); len >= 1; len /= 2)
        {
            for (size_t i = 0; i < best.used.size(); i += len)
            {
                std::vector<uint32_t> c = best.used; bool any = false;
                for (size_t j = i; j < std::min(i+len, c.size()); ++j) { if (c[j]) any = true; c[j] = 0; }
                if (any && attempt(c)) progress = true;
                if (runs >= max_runs || now()-t0 > max_s) break;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.used.size(); ++i)
        {
            for (int k = 0; k < 20 && i < best.used.size() && best.used[i] > 0; ++k)
            {
                std::vector<uint32_t> c = best.used; c[i] = c[i]/2;
                if (attempt(c)) { progress = true; continue; }
                if (i < best.used.size() && best.used[i] > 1) { c = best.used; c[i]--; if (attempt(c)) { progress = true; continue; } }
                break;
            }
            // Delete a choice and lower an earlier one (sizes).
            if (i+1 < best.used.size() && best.used[i] > 0)
            {
                for (size_t l = 1; l <= 6 && i+1+l <= best.used.size(); ++l)
                {
                    std::vector<uint32_t> c = best.used; c[i]--; c.erase(c.begin()+i+1, c.begin()+i+1+l);
                    if (attempt(c)) { progress = true; break; }
                }
            }
            if (runs >= max_runs || now()-t0 > max_s) break;
        }
    }
    return best;
}

// ---------------------------------------------------------------------------------------------- main
static Str jesc(const Str &s)
{
    Str o;
    size_t i = 0;
    while (i < s.size())
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; i++; }
        else if (c == '\n') { o += "\\n"; i++; }
        else if (c == '\t') { o += "\\t"; i++; }
        else if (c == '\r') { o += "\\r"; i++; }
        else if (c < 32) { o += strf("\\u%04x", c); i++; }
        else if (c < 128) { o += c; i++; }
        else
        {
            int n = (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
            bool ok = n && i+n <= s.size();
            for (int k = 1; ok && k < n; ++k) if ((s[i+k] & 0xc0) != 0x80) ok = false;
            if (ok && ((c == 0xed && (unsigned char)s[i+1] >= 0xa0) || c == 0xc0 || c == 0xc1 || c > 0xf4)) ok = false;
            if (ok && c == 0xe0 && (unsigned char)s[i+1] < 0xa0) ok = false;
            if (ok && c == 0xf0 && (unsigned char)s[i+1] < 0x90) ok = false;
            if (ok && c == 0xf4 && (unsigned char)s[i+1] >= 0x90) ok = false;
            if (ok) { o += s.substr(i, n); i += n; }
            else { o += strf("\\u00%02x", c); i++; }
        }
    }
    return o;
}

static std::set<Str> g_known;
bool known_listed(const Str &id) { return g_known.count(id) != 0; }
static void load_known(const Str &verif, const Str &prop, std::vector<Str> &lines)
{
    Str text; if (!read_file(verif + "/known_findings.txt", text)) return;
    for (size_t p = 0; p < text.size(); )
    {
        size_t e = text.find('\n', p); if (e == Str::npos) e = text.size();
        Str l = text.substr(p, e-p); p = e+1;
        char pr[32], id[64]; int n = 0;
        if (sscanf(l.c_str(), "known: property=%31s id=%63s %n", pr, id, &n) == 2 && n > 0)
        {
            g_known.insert(id);
            if (prop == pr) lines.push_back(l.substr(l.find("id=")));
        }
    }
}

int main(int argc, char **argv)
{
    Str prop, tier = "quick", verif = ".", only_part, replay_file, known_file;
    uint64_t seed = 1; int workers = 8; double scale = 1.0; double budget = 0; bool list = false; bool keep_going = false;
    long dump_n = 0;
    for (int i = 1; i < argc; ++i)
    {
        Str a = argv[i];
        auto val = [&]() -> Str { return i+1 < argc ? Str(argv[++i]) : Str(); };
        if (a == "--prop") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--verif") verif = val();
        else if (a == "--part") only_part = val();
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--cli") g_cli = val();
        else if (a == "--replay") replay_file = val();
        else if (a == "--list") list = true;
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--dump") dump_n = atol(val().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_IGN);
    if (list) { for (auto &p : parts()) printf("%s %s %d %d\n", p.prop, p.name, p.quick, p.thorough); return 0; }

    char tmpl[] = "/tmp/xmqverif.XXXXXX";
    Str scratch = mkdtemp(tmpl);

    { std::vector<Str> kl; load_known(verif, "", kl); }
    if (!replay_file.empty())
    {
        Str text; if (!read_file(replay_file, text)) { fprintf(stderr, "cannot read %s\n", replay_file.c_str()); rm_tree(scratch); return 2; }
        Str part; std::vector<uint32_t> ch;
        size_t p = 0;
        while (p < text.size())
        {
            size_t e = text.find('\n', p); if (e == Str::npos) e = text.size();
            Str line = text.substr(p, e-p); p = e+1;
            if (line.compare(0, 5, "part ") == 0) part = line.substr(5);
            else if (line.compare(0, 5, "prop ") == 0) prop = line.substr(5);
            else if (line.compare(0, 8, "choices ") == 0) { char *q = &line[8]; while (*q) { char *en; unsigned long v = strtoul(q, &en, 10); if (en == q) break; ch.push_back(v); q = en; } }
        }
        for (auto &pt : parts()) if (prop == pt.prop && part == pt.name)
        {
            SingleOut o = run_single(pt, ch, scratch);
            printf("%s\n", o.rend.c_str());
            if (o.failed) { printf("FAILS %s: %s\n", o.kind.c_str(), o.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_file.c_str()); rm_tree(scratch); return 1; }
            printf("holds\n"); rm_tree(scratch); return 0;
        }
        fprintf(stderr, "no such part %s/%s\n", prop.c_str(), part.c_str()); rm_tree(scratch); return 2;
    }

    // known_findings.txt: "known: property=<id> id=<finding> <what fails>", never written by a check.
    std::vector<Str> known_lines; load_known(verif, prop, known_lines);
    for (auto &l : known_lines) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), l.c_str());
    fflush(stdout);
    double t0 = now();
    std::vector<Part> mine; for (auto &p : parts()) if (prop == p.prop && (only_part.empty() || only_part == p.name)) mine.push_back(p);
    if (mine.empty()) { fprintf(stderr, "no parts for %s\n", prop.c_str()); rm_tree(scratch); return 2; }

    if (dump_n)
    {
        for (auto &p : mine) for (long k = 0; k < dump_n; ++k)
        {
            Shm *sh = new_shm(); Gen g; seed_gen(g, seed, p, k); g.rec = sh->rec; g.reclen = &sh->reclen; g.cap = MAXCHOICES;
            Ctx c; c.scratch = scratch; Str res = "ok";
            fflush(stdout);
            try { run_one(p, g, c); } catch (Fail &f) { res = "FAIL " + f.kind + ": " + f.msg; } catch (Discard &) { res = "discard"; }
            printf("---- %s case %ld (%zu choices)%s\n%s=> %s\n", p.name, k, g.pos, c.nt?" nontrivial":"", c.rendering.c_str(), res.c_str());
            munmap(sh, sizeof(Shm));
        }
        rm_tree(scratch); return 0;
    }

    Ctx total; std::map<Str,uint64_t> per_part; bool violated = false; int nviol = 0; int unreproduced = 0; bool inconclusive = false;
    Str viol_replay;
    double deadline = budget > 0 ? t0 + budget : 0;
    for (auto &p : mine)
    {
        uint64_t n = (uint64_t)((tier == "quick" ? p.quick : p.thorough) * scale); if (n < 1) n = 1;
        int W = std::min<uint64_t>(workers, n);
        std::vector<uint64_t> nextidx(W); for (int w = 0; w < W; ++w) nextidx[w] = w;
        std::vector<Shm*> shms; for (int w = 0; w < W; ++w) shms.push_back(new_shm());
        std::vector<pid_t> pids(W, 0); std::vector<int> gen_no(W, 0);
        Ctx pc;
        auto start_worker = [&](int w) {
            Shm *sh = shms[w]; sh->outcome = 0; sh->reclen = 0; sh->kind[0] = 0; sh->msg[0] = 0; sh->rend[0] = 0;
            gen_no[w]++;
            Str errfile = scratch + strf("/w%d.err", w);
            Str resfile = scratch + strf("/w%d.%d.res", w, gen_no[w]);
            Str dir = scratch + strf("/w%d", w); mkdir(dir.c_str(), 0700);
            uint64_t start = nextidx[w];
            pid_t pid = fork();
            if (pid == 0)
            {
                redirect_child(errfile);
                cur_shm = sh;
                Ctx c; c.scratch = dir;
                int lim = 0;
                for (uint64_t i = start; i < n; i += W)
                {
                    if (deadline && now() > deadline) break;
                    sh->cur_case = i; sh->reclen = 0;
                    if (++lim % 64 == 0) { if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
                    arm_timer(CASE_CPU_S);
                    Gen g; seed_gen(g, seed, p, i); g.rec = sh->rec; g.reclen = &sh->reclen; g.cap = MAXCHOICES;
                    try
                    {
                        run_one(p, g, c);
                        c.evals++;
                        if (c.nt) { c.nontrivial++; c.hashes.insert(c.hash); if (c.samples.size() < 2 && c.rendering.size() < 3000) c.samples.push_back(c.rendering); }
                    }
                    catch (Discard &) { c.discards++; }
                    catch (Fail &f) { put_fail(sh, f.kind, f.msg); merge_write(c, resfile); _exit(0); }
                }
                merge_write(c, resfile);
                sh->outcome = 1;
                _exit(0);
            }
            pids[w] = pid;
        };
        for (int w = 0; w < W; ++w) start_worker(w);
        int alive = W; bool stop = false;
        while (alive > 0)
        {
            int st; pid_t pid = waitpid(-1, &st, 0);
            if (pid < 0) { if (errno == EINTR) continue; break; }
            int w = -1; for (int k = 0; k < W; ++k) if (pids[k] == pid) w = k;
            if (w < 0) continue;
            pids[w] = 0; alive--;
            merge_read(pc, scratch + strf("/w%d.%d.res", w, gen_no[w]));
            Shm *sh = shms[w];
            if (sh->outcome == 1) continue;
            if (stop) continue;
            // failed or crashed
            std::vector<uint32_t> ch(sh->rec, sh->rec + std::min<size_t>(sh->reclen, MAXCHOICES));
            SingleOut o; bool rep = true; 
            for (int k = 0; k < 3; ++k) { o = run_single(p, ch, scratch); if (!o.failed) { rep = false; break; } }
            if (!rep)
            {
                unreproduced++;
                Str msg; Str kind = sh->outcome == 2 ? Str(sh->kind) : crash_kind(st, scratch + strf("/w%d.err", w), msg);
                if (sh->outcome == 2) msg = sh->msg;
                printf("note: property=%s part=%s case=%llu failed once but not on replay (%s: %s)\n", prop.c_str(), p.name, (unsigned long long)sh->cur_case, kind.c_str(), msg.substr(0, 1500).c_str());
                nextidx[w] = sh->cur_case + W;
                if (nextidx[w] < n && unreproduced < 50) { start_worker(w); alive++; }
                continue;
            }
            if (!keep_going) { stop = true; for (int k = 0; k < W; ++k) if (pids[k] > 0) kill(pids[k], SIGKILL); }
            uint64_t casenr = sh->cur_case;
            double shrink_s = tier == "quick" ? 60 : 120;
            if (o.kind == "hang") shrink_s = 200;
            o = shrink(p, o, scratch, keep_going ? 1500 : 4000, keep_going ? 10 : shrink_s);
            bool still = true;
            for (int k = 0; k < 3; ++k) { SingleOut o2 = run_single(p, o.used, scratch); if (!o2.failed) still = false; }
            if (!still) o.used = ch;
            Str dir = verif + "/replays"; mkdir(dir.c_str(), 0755);
            Str file = dir + "/" + prop + "-" + p.name + strf("-%llu-%llu.replay", (unsigned long long)seed, (unsigned long long)casenr);
            Str body = "prop " + prop + "\npart " + p.name + "\nchoices"; for (auto v : o.used) body += strf(" %u", v);
            body += "\n\nkind " + o.kind + "\nmessage " + o.msg + "\n\ncase:\n" + o.rend + "\n";
            write_file(file, body);
            printf("---- %s/%s case %llu: %s\n%s\n%s\n", prop.c_str(), p.name, (unsigned long long)casenr, o.kind.c_str(), o.msg.substr(0, 4000).c_str(), o.rend.substr(0, 4000).c_str());
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(), file.c_str());
            fflush(stdout);
            violated = true; nviol++; viol_replay = file;
            if (keep_going) { nextidx[w] = casenr + W; if (nextidx[w] < n && nviol < 14) { start_worker(w); alive++; } }
        }
        per_part[p.name] = pc.evals;
        if (deadline && now() > deadline && pc.evals + pc.discards < n) inconclusive = true;
        for (auto &l : pc.labels) total.labels[Str(p.name) + ": " + l.first] += l.second;
        for (auto &l : pc.known) total.known[l.first] += l.second;
        for (size_t k = 0; k < pc.samples.size() && k < 3; ++k) total.samples.push_back(Str(p.name) + ": " + pc.samples[k]);
        for (auto h : pc.hashes) total.hashes.insert(h ^ fnv(p.name));
        total.evals += pc.evals; total.discards += pc.discards; total.nontrivial += pc.nontrivial;
        for (auto s : shms) munmap(s, sizeof(Shm));
        if (violated && !keep_going) break;
    }
    double wall = now() - t0;
    Str rule; for (auto &p : mine) { if (!rule.empty()) rule += " | "; rule += Str(p.name) + ": " + p.rule; }
    Str ev = "{\n \"property\": \"" + prop + "\",\n \"tier\": \"" + tier + strf("\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", (unsigned long long)seed);
    ev += strf("  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n", (unsigned long long)total.evals, total.hashes.size(), (unsigned long long)total.discards);
    ev += "  \"rule\": \"" + jesc(rule) + "\",\n  \"per_part\": {";
    bool first = true; for (auto &x : per_part) { ev += (first?"":", "); first = false; ev += "\"" + x.first + strf("\": %llu", (unsigned long long)x.second); }
    ev += "},\n  \"classes\": {"; first = true;
    for (auto &x : total.labels) { ev += (first?"":", "); first = false; ev += "\"" + jesc(x.first) + strf("\": %llu", (unsigned long long)x.second); }
    ev += "},\n  \"known_findings_hit\": {"; first = true;
    for (auto &x : total.known) { ev += (first?"":", "); first = false; ev += "\"" + jesc(x.first) + strf("\": %llu", (unsigned long long)x.second); }
    ev += "},\n  \"samples\": ["; first = true;
    for (auto &s : total.samples) { ev += (first?"":",\n   "); first = false; ev += "\"" + jesc(s) + "\""; }
    ev += strf("],\n  \"unreproduced\": %d,\n  \"stopped_early_by_budget\": %s\n },\n", unreproduced, inconclusive ? "true" : "false");
    ev += " \"assumptions\": [\"libxml2 2.9.14 and libxslt are trusted\"],\n";
    ev += strf(" \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, nviol);
    Str evdir = verif + "/evidence"; mkdir(evdir.c_str(), 0755);
    write_file(evdir + "/" + prop + ".json", ev);
    printf("property=%s tier=%s seed=%llu evaluations=%llu distinct_nontrivial=%zu discarded=%llu wall=%.1fs violations=%d\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)total.evals, total.hashes.size(), (unsigned long long)total.discards, wall, nviol);
    rm_tree(scratch);
    return violated ? 1 : 0;
}
