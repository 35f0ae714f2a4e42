// Replay / conformance harness: runs the real library on generated inputs and compares with an independent oracle.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>
#include <chrono>
#include <map>
#include <sstream>
#include <algorithm>
typedef __int128 i128;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    int64_t in(int64_t lo, int64_t hi) { return lo + (int64_t)((next() >> 11) % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return in(1, den) <= num; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + in(0, (int)l.size() - 1)); }
    // machine word of w bits, biased to the corners
    int64_t word(int w) {
        int64_t mx = (int64_t)((1ull << (w - 1)) - 1), mn = -mx - 1;
        switch (in(0, 7)) {
            case 0: return pick<int64_t>({mx, mn, mx - 1, mn + 1, 0, 1, -1});
            case 1: { int64_t v = (int64_t)1 << in(0, w - 2); return chance(1, 2) ? v : -v; }
            case 2: { int64_t v = ((int64_t)1 << in(0, w - 2)) + in(-2, 2); return std::min(mx, std::max(mn, chance(1, 2) ? v : -v)); }
            case 3: return in(-8, 8);
            default: {
                int b = (int)in(1, w);
                uint64_t v = next();
                int64_t r = (int64_t)(v << (64 - b)) >> (64 - b);
                return r;
            }
        }
    }
};
struct Fam { const char *name; std::function<bool(Rng &, std::string &)> f; int weight; };
inline std::vector<Fam> &fams() { static std::vector<Fam> v; return v; }
struct Reg { Reg(const char *n, std::function<bool(Rng &, std::string &)> f, int w = 1) { fams().push_back({n, f, w}); } };
#define FAMILY(n) static bool fam_##n(Rng &r, std::string &d); static Reg reg_##n(#n, fam_##n); static bool fam_##n(Rng &r, std::string &d)
extern bool seed_line(const std::string &line, std::string &desc);   // solver-provided input
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- oracle arithmetic: exact integers
static inline i128 clampw(i128 v, int w) { i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1; return v > mx ? mx : v < mn ? mn : v; }
static inline i128 floordiv2(i128 v, int n) { return n > 120 ? (v < 0 ? -1 : 0) : v >> n; }
static inline i128 o_asl(i128 x, int64_t m, int w) {
    if (m >= w) return x == 0 ? (i128)0 : x < 0 ? -((i128)1 << (w - 1)) : ((i128)1 << (w - 1)) - 1;
    return clampw(x * ((i128)1 << m), w);
}
// x * 2^-n to nearest; ties up with a saturating rounding constant, or to even
static inline i128 o_asr_rnd(i128 x, int64_t n, int w) {
    if (n < 0) return o_asl(x, -n, w);
    if (n == 0) return x;
    if (n >= w) return 0;
#ifdef ROUND_MODE_CONVERGENT
    i128 q = x >> n, rem = x - (q << n), half = (i128)1 << (n - 1);
    return q + (rem > half || (rem == half && (q & 1)) ? 1 : 0);
#else
    return clampw(x + ((i128)1 << (n - 1)), w) >> n;
#endif
}
static inline i128 o_cast(i128 x, int64_t n, int wi, int wo) { return clampw(o_asr_rnd(x, n, wi), wo); }
static inline int o_norm(i128 x, int w) { int r = 0; while (r < w - 1 && clampw(x * ((i128)1 << (r + 1)), w) == x * ((i128)1 << (r + 1))) r++; return r; }

#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
inline int h_main(int argc, char **argv) {
    double secs = 5; uint64_t seed = 1; const char *out = nullptr, *seeds = nullptr, *replay = nullptr;
    const char *only = getenv("H_ONLY");
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--time") secs = atof(argv[++i]);
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--out") out = argv[++i];
        else if (a == "--seeds") seeds = argv[++i];
        else if (a == "--replay") replay = argv[++i];
    }
    auto fail = [&](const std::string &head, const std::string &d) {
        printf("FAIL %s\n%s\n", head.c_str(), d.c_str());
        if (out) { FILE *f = fopen(out, "w"); if (f) { fprintf(f, "%s\n%s\n", head.c_str(), d.c_str()); fclose(f); } }
        return 1;
    };
    if (replay) {
        FILE *f = fopen(replay, "r"); char line[4096];
        if (!f || !fgets(line, sizeof line, f)) return 2;
        line[strcspn(line, "\n")] = 0;
        std::string d, l = line;
        if (l.compare(0, 2, "X ") == 0) { bool ok = seed_line(l.substr(2), d); printf("%s\n%s\n", ok ? "passes" : "FAIL", d.c_str()); return ok ? 0 : 1; }
        char fn[128]; unsigned long long s;
        if (sscanf(line, "%127s %llu", fn, &s) != 2) return 2;
        for (auto &x : fams()) if (!strcmp(x.name, fn)) { Rng r(s); bool ok = x.f(r, d); printf("%s\n%s\n", ok ? "passes" : "FAIL", d.c_str()); return ok ? 0 : 1; }
        return 2;
    }
    unsigned long long n = 0;
    if (seeds) {
        FILE *f = fopen(seeds, "r"); char line[4096];
        while (f && fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0; std::string d; n++;
            if (!seed_line(line, d)) return fail(std::string("X ") + line, d);
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    uint64_t k = 0;
    while (true) {
        for (auto &x : fams()) {
            if (only && !strstr(x.name, only)) continue;
            for (int w = 0; w < x.weight; w++) {
                uint64_t s = seed * 1000003ull + k++;
                // announce the case before running it, so that a crash leaves its input behind
                static char *cf = nullptr; static const char *lastname = nullptr;
                if (out) {
                    if (!cf) { std::string n = std::string(out) + ".cur"; int fd = open(n.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
                        if (fd >= 0 && ftruncate(fd, 128) == 0) cf = (char *)mmap(0, 128, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
                    if (cf) { if (lastname != x.name) { memset(cf, ' ', 126); strcpy(cf + 30, x.name); lastname = x.name; }
                        uint64_t q = s; char *z = cf + 28; for (int i = 0; i < 24; i++) { *z-- = '0' + q % 10; q /= 10; } cf[29] = ' '; }
                }
                Rng r(s); std::string d; n++;
                if (!x.f(r, d)) return fail(std::string(x.name) + " " + std::to_string(s), d);
            }
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    if (out) remove((std::string(out) + ".cur").c_str());
    printf("CASES %llu\n", n);
    return 0;
}
