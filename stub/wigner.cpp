#include "wignerSymbols/wignerSymbols-cpp.h"
#include <algorithm>
#include <cmath>
namespace {
struct Fact {
    long double f[400];
    Fact() {
        f[0] = 0;
        for (int i = 1; i < 400; i++) f[i] = f[i - 1] + std::log((long double)i);
    }
};
Fact F; // log factorials
int I(double x) { return int(std::lround(x)); }
bool isint(double x) { return std::fabs(x - std::lround(x)) < 1e-6; }
bool tri(double a, double b, double c) { return a + b >= c - 1e-9 && c >= std::fabs(a - b) - 1e-9 && isint(a + b + c); }
long double delta(double a, double b, double c) {
    return 0.5L * (F.f[I(a + b - c)] + F.f[I(a - b + c)] + F.f[I(-a + b + c)] - F.f[I(a + b + c + 1)]);
}
} // namespace
namespace WignerSymbols {
double wigner3j(double a, double b, double c, double x, double y, double z) {
    if (std::fabs(x + y + z) > 1e-6 || !tri(a, b, c)) return 0;
    if (std::fabs(x) > a + 1e-9 || std::fabs(y) > b + 1e-9 || std::fabs(z) > c + 1e-9) return 0;
    if (!isint(a + x) || !isint(b + y) || !isint(c + z)) return 0;
    long double pre = delta(a, b, c) + 0.5L * (F.f[I(a + x)] + F.f[I(a - x)] + F.f[I(b + y)] + F.f[I(b - y)] + F.f[I(c + z)] + F.f[I(c - z)]);
    int kmin = std::max({0, I(b - c - x), I(a - c + y)}), kmax = std::min({I(a + b - c), I(a - x), I(b + y)});
    long double s = 0;
    for (int k = kmin; k <= kmax; k++) {
        long double t = pre - (F.f[k] + F.f[I(a + b - c) - k] + F.f[I(a - x) - k] + F.f[I(b + y) - k] + F.f[I(c - b + x) + k] + F.f[I(c - a - y) + k]);
        s += (k & 1 ? -1 : 1) * std::exp(t);
    }
    return double((I(a - b - z) & 1 ? -1 : 1) * s);
}
double wigner6j(double a, double b, double c, double d, double e, double f) {
    if (!tri(a, b, c) || !tri(a, e, f) || !tri(d, b, f) || !tri(d, e, c)) return 0;
    long double pre = delta(a, b, c) + delta(a, e, f) + delta(d, b, f) + delta(d, e, c);
    int kmin = std::max({I(a + b + c), I(a + e + f), I(d + b + f), I(d + e + c)});
    int kmax = std::min({I(a + b + d + e), I(b + c + e + f), I(a + c + d + f)});
    long double s = 0;
    for (int k = kmin; k <= kmax; k++) {
        long double t = pre + F.f[k + 1] - (F.f[k - I(a + b + c)] + F.f[k - I(a + e + f)] + F.f[k - I(d + b + f)] + F.f[k - I(d + e + c)] + F.f[I(a + b + d + e) - k] + F.f[I(b + c + e + f) - k] + F.f[I(a + c + d + f) - k]);
        s += (k & 1 ? -1 : 1) * std::exp(t);
    }
    return double(s);
}
} // namespace WignerSymbols
