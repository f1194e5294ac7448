// Property-based testing engine: recorded choice sequences, forked workers, shrinking, replay, evidence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cstdio>

typedef std::string Str;

// A failed property. kind is a short stable class used while shrinking, msg the details.
struct Fail { Str kind, msg; Fail(const Str &k, const Str &m) : kind(k), msg(m) {} };
// Case rejected by the generator (counted as discarded).
struct Discard {};

// All randomness of a case. Value 0 is always the simplest choice.
struct Gen
{
    uint64_t s[2];
    const uint32_t *replay = nullptr; size_t rn = 0; bool replaying = false;
    uint32_t *rec = nullptr; volatile uint32_t *reclen = nullptr; size_t cap = 0;
    size_t pos = 0;
    bool overflow = false;
    uint64_t next64();
    uint32_t below(uint32_t n);             // 0..n-1
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi-lo+1)); } // simplest lo
    bool chance(uint32_t num, uint32_t den);// simplest false
    bool coin() { return below(2) != 0; }
    size_t pick(const std::vector<uint32_t> &weights);
    template<class T> const T &of(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
    // Geometric-like size: mostly small, sometimes up to max.
    size_t size(size_t max);
};

struct Ctx
{
    std::map<Str,uint64_t> labels;
    std::vector<Str> samples;
    std::set<uint64_t> hashes;
    uint64_t evals = 0, discards = 0, nontrivial = 0;
    std::map<Str,uint64_t> known;
    // per case
    Str rendering;      // human readable case, for samples and replay files
    bool nt = false;
    uint64_t hash = 0;
    Str scratch;        // private scratch dir of the worker
    bool verbose = false;
    void label(const Str &l) { labels[l]++; }
    void label_if(bool b, const Str &l) { if (b) labels[l]++; }
    void show(const Str &s);               // add to rendering (also mirrored to shared memory for crashes)
    void nontrivially(bool b, const Str &key);
    // A listed known finding was hit: count it, do not fail.
    void known_finding(const Str &id) { known[id]++; }
};

struct Part
{
    const char *prop;       // C01
    const char *name;       // part name
    int quick, thorough;    // number of cases
    const char *rule;       // generation and non-triviality rule
    void (*run)(Gen &g, Ctx &c);
    // Optional demonstration of known findings, see known.cc
};
// Is this finding listed in known_findings.txt?
bool known_listed(const Str &id);
void register_part(const Part &p);
struct Reg { Reg(const Part &p) { register_part(p); } };
#define PART(prop,name,quick,thorough,rule) \
    static void part_##prop##_##name(Gen &g, Ctx &c); \
    static Reg reg_##prop##_##name({#prop, #name, quick, thorough, rule, part_##prop##_##name}); \
    static void part_##prop##_##name(Gen &g, Ctx &c)

Str hex(const Str &s);
Str vis(const Str &s, size_t max=2000);   // printable C-like rendering
uint64_t fnv(const Str &s);
Str strf(const char *fmt, ...) __attribute__((format(printf,1,2)));

struct RunResult { int status=0; bool exited=false; int code=-1; int sig=0; bool timeout=false; Str out, err; };
// Run a program with args, stdin content, in dir; CPU limited. env additions.
RunResult run_program(const std::vector<Str> &argv, const Str &in, const Str &dir, const std::vector<Str> &env_add = {});
Str cli_path();
bool write_file(const Str &path, const Str &content);
bool read_file(const Str &path, Str &content);

#define REQUIRE(kind, cond, ...) do { if (!(cond)) throw Fail(kind, strf(__VA_ARGS__)); } while (0)
