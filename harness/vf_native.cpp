// Native implementation of the harness interface: replays one assignment of the inputs against the real code.
#include "vf.h"
extern "C" void vf_skip(char const *);
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <exception>
#include <dlfcn.h>

static std::vector<double> in_;
static std::vector<long> int_;          // the same values as integers (a double does not hold every long)
static std::size_t pos_;
static int fails_;
static double tol_ = 1e-6;
static double next_() { if (pos_ >= in_.size()) { std::printf("VF-EXHAUSTED\n"); std::fflush(stdout); _Exit(fails_ ? 1 : 3); } return in_[pos_++]; }

extern "C" {
double vf_real(void) { return next_(); }
double vf_real_in(double, double) { return next_(); }
long vf_int(long, long) { next_(); return int_[pos_ - 1]; }
int vf_choice(int) { return (int)next_(); }
void vf_assume(bool c) { if (!c) { std::printf("VF-ASSUME\n"); std::fflush(stdout); _Exit(fails_ ? 1 : 3); } }
void vf_assert(bool c, char const *tag) { if (!c) { std::printf("VF-FAIL %s\n", tag); ++fails_; } }
void vf_eq(double a, double b, char const *tag)
{
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    double m = std::fmax(std::fabs(a), std::fabs(b));
    if (std::fabs(a - b) <= tol_ * (1 + m)) return;
    std::printf("VF-FAIL %s got=%.17g expected=%.17g\n", tag, a, b); ++fails_;
}
void vf_cover(char const *tag) { std::printf("VF-COVER %s\n", tag); }
long vf_concretize(long v) { return v; }
void vf_skip(char const *) { std::printf("VF-SKIP\n"); std::fflush(stdout); _Exit(fails_ ? 1 : 3); }
}

int main(int argc, char **argv)
{
    // argv: harness file-with-one-decimal-per-line
    FILE *f = std::fopen(argv[2], "r");
    if (!f) return 4;
    if (argc > 3) tol_ = std::atof(argv[3]);
    char buf[4096];
    while (std::fgets(buf, sizeof buf, f)) { in_.push_back(std::strtod(buf, 0)); int_.push_back(std::strtol(buf, 0, 10)); }
    std::fclose(f);
    void (*h)() = (void (*)())dlsym(dlopen(0, RTLD_NOW), argv[1]);
    if (!h) return 4;
    try { h(); }
    catch (...) { std::printf("VF-FAIL throw\n"); ++fails_; }
    std::fflush(stdout);
    _Exit(fails_ ? 1 : 0);
}
