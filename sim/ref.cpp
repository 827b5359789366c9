#include "ref.h"
#include <algorithm>
#include <cmath>
#include <set>

namespace ref {
using sim::Rng;

static double segDist(double x, double y, double ax, double ay, double bx, double by) {
    double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy, t = l > 0 ? ((x - ax) * dx + (y - ay) * dy) / l : 0;
    t = std::max(0.0, std::min(1.0, t)); return std::hypot(ax + t * dx - x, ay + t * dy - y);
}
int maskSide(const sim::Line& op, double x, double y) {
    std::string w = op.str("do"); const double E = 1e-9;
    if (w == "mask_holes") {
        double d = std::hypot(x - op.dbl("x"), y - op.dbl("y")) - op.dbl("r");
        for (const char* k : {"2", "3", "4"}) { std::string s(k); if (op.has(("x" + s).c_str())) d = std::min(d, std::hypot(x - op.dbl(("x" + s).c_str()), y - op.dbl(("y" + s).c_str())) - op.dbl(("r" + s).c_str())); }
        if (std::fabs(d) <= E) {       // on the edge: outside, where the arithmetic is exact
            bool exact = true; auto quarter = [&](double v) { if (v * 4 != std::floor(v * 4) || std::fabs(v) > 1e4) exact = false; };
            quarter(op.dbl("x")); quarter(op.dbl("y")); quarter(op.dbl("r")); for (const char* k : {"2", "3", "4"}) { std::string s(k); if (op.has(("x" + s).c_str())) exact = false; }
            return exact ? -1 : 0;
        }
        return d < 0 ? 1 : -1;
    }
    if (w == "mask_rect") {
        double m = std::min(std::min(x - op.dbl("x0"), op.dbl("x1") - x), std::min(y - op.dbl("y0"), op.dbl("y1") - y));
        return m > 0 ? 1 : -1;
    }
    if (w == "mask_poly") {
        int k = op.num("k", 3); double cx = op.dbl("x"), cy = op.dbl("y"), rr = op.dbl("r"), ph = op.dbl("ph");
        std::vector<double> px, py; for (int i = 0; i < k; i++) { double t = ph - 2 * M_PI * i / k, q = i & 1 ? rr * op.dbl("star", 1) : rr; px.push_back(cx + q * std::cos(t)); py.push_back(cy + q * std::sin(t)); }
        bool in = false; double d = 1e9;
        for (int i = 0; i < k; i++) { int j = (i + 1) % k; if ((py[i] > y) != (py[j] > y) && x < px[i] + (px[j] - px[i]) * (y - py[i]) / (py[j] - py[i])) in = !in; d = std::min(d, segDist(x, y, px[i], py[i], px[j], py[j])); }
        if (d < 1e-9) return 0;
        return in ? 1 : -1;
    }
    return -1;
}

// The fast marching method, written from its description.
struct March {
    int w, h; std::vector<double> sd, in; std::vector<char> frozen, trial; std::set<std::pair<double, int>> q;
    double eps; Rng rng;
    const std::vector<char>* active = nullptr; std::vector<double> vel; bool divZero = false;
    March(const std::vector<double>& s, int w_, int h_, double e, uint64_t seed) : w(w_), h(h_), sd(s), in(s), frozen(s.size(), 0), trial(s.size(), 0), eps(e), rng(seed + 77) {}
    int nb(int i, int j) const { int W = w + 1, x = i % W, y = i / W; switch (j) { case 0: return x ? i - 1 : -1; case 1: return x < w ? i + 1 : -1; case 2: return y ? i - W : -1; default: return y < h ? i + W : -1; } }
    double wob(double v) { return eps > 0 ? v * (1 + eps * (2 * rng.uni() - 1)) : v; }
    void freezeInterface() {
        for (size_t i = 0; i < sd.size(); i++) if (in[i] == 0) frozen[i] = 1;
        for (size_t i = 0; i < sd.size(); i++) {
            if (frozen[i]) continue;
            double inv = 0; bool border = false;
            for (int dim = 0; dim < 2; dim++) {
                double best = 0; bool any = false;
                for (int s = 0; s < 2; s++) { int n = nb(i, 2 * dim + s); if (n >= 0 && in[i] * in[n] < 0) { double d = in[i] / (in[i] - in[n]); if (!any || d < best) best = d; any = true; } }
                if (any) { border = true; if (best > 0) inv += 1 / (best * best); }
            }
            if (border) { double d = wob(std::sqrt(1 / inv)); sd[i] = in[i] < 0 ? -d : d; frozen[i] = 2; }
        }
    }
    double value(int i) {
        double a = 0, b = 0, c = -1;
        for (int dim = 0; dim < 2; dim++) {
            double d1 = 0, d2 = 0; bool has1 = false, has2 = false;
            for (int s = 0; s < 2; s++) {
                int j = 2 * dim + s, n1 = nb(i, j); if (n1 < 0 || !frozen[n1]) continue;
                if (has1 && !(std::fabs(sd[n1]) < std::fabs(d1))) continue;
                has1 = true; d1 = sd[n1];
                // (the far value of the other side is kept when this side has none)
                int n2 = nb(n1, j); if (n2 >= 0 && frozen[n2] && std::fabs(sd[n2]) <= std::fabs(d1)) { has2 = true; d2 = sd[n2]; }
            }
            if (has2) { double t = (4 * d1 - d2) / 3; a += 2.25; b -= 4.5 * t; c += 2.25 * t * t; }
            else if (has1) { a += 1; b -= 2 * d1; c += d1 * d1; }
        }
        double D = wob(b * b) - wob(4 * a * c);
        if (!(D > 0)) return sd[i];
        return wob(in[i] > 2.220446049250313e-16 ? (-b + std::sqrt(D)) / (2 * a) : (-b - std::sqrt(D)) / (2 * a));
    }
    std::vector<double> key;
    void put(int i) { key[i] = std::fabs(sd[i]); q.insert({key[i], i}); trial[i] = 1; }
    void move(int i) { q.erase({key[i], i}); key[i] = std::fabs(sd[i]); q.insert({key[i], i}); }
    void setVel(int i) {
        double num = 0, den = 0;
        for (int dim = 0; dim < 2; dim++) {
            bool any = false; double front = 0, v = 0, d = 0;
            for (int s = 0; s < 2; s++) { int n = nb(i, 2 * dim + s); if (n < 0 || !frozen[n]) continue; double a = std::fabs(sd[n]); if (!any || a < front) { any = true; front = a; d = std::fabs(sd[i] - sd[n]); v = vel[n]; } }
            num += d * v; den += d;
        }
        if (den == 0) { divZero = true; vel[i] = 0; } else vel[i] = num / den;
    }
    void run() {
        key.assign(sd.size(), 0);
        freezeInterface();
        auto pushable = [&](int i) { return !active || (*active)[i]; };
        std::vector<char> start = frozen;
        for (size_t i = 0; i < sd.size(); i++) {
            if (frozen[i]) continue;
            bool next = false; for (int j = 0; j < 4; j++) { int n = nb(i, j); if (n >= 0 && frozen[n]) next = true; }
            if (next && pushable(i)) { sd[i] = value(i); put(i); }
        }
        std::vector<int> batch;
        while (!q.empty()) {
            double v = q.begin()->first; batch.clear();
            while (!q.empty() && q.begin()->first == v) { int i = q.begin()->second; q.erase(q.begin()); trial[i] = 0; frozen[i] = 1; if (active) setVel(i); batch.push_back(i); }
            for (int i : batch) for (int j = 0; j < 4; j++) {
                int n = nb(i, j); if (n < 0 || frozen[n]) continue;
                sd[n] = value(n);
                if (trial[n]) move(n); else if (pushable(n)) put(n);
                int m = nb(n, j); if (m >= 0 && trial[m]) { sd[m] = value(m); move(m); }
            }
        }
    }
};
std::vector<double> reinit(const std::vector<double>& sd, int w, int h, double eps, uint64_t seed) { March m(sd, w, h, eps, seed); m.run(); return m.sd; }
// (the second order update can fall below a neighbour frozen just before)
// Is v the solution of the update at node i for some choice of its nearer neighbours, given the final values?
bool locallyConsistent(const std::vector<double>& in, const std::vector<double>& out, int i, int w, int h) {
    March m(out, w, h, 0, 1); m.in = in; double d = std::fabs(out[i]);
    for (int mask = 1; mask < 256; mask++) {
        std::fill(m.frozen.begin(), m.frozen.end(), 0); bool ok = true;
        for (int j = 0; j < 4 && ok; j++) {
            int n = m.nb(i, j), f = n >= 0 ? m.nb(n, j) : -1;
            if (mask >> j & 1) { if (n < 0 || std::fabs(out[n]) > d + 0.25) ok = false; else m.frozen[n] = 1; }
            if (mask >> (4 + j) & 1) { if (f < 0 || !(mask >> j & 1)) ok = false; else m.frozen[f] = 1; }
        }
        if (!ok) continue;
        m.sd[i] = 1e300; double v = m.value(i);
        if (std::fabs(v - out[i]) <= 1e-7 * (1 + d)) return true;
    }
    return false;
}
std::vector<char> frozenNodes(const std::vector<double>& sd, int w, int h) { March m(sd, w, h, 0, 1); m.freezeInterface(); return m.frozen; }
std::vector<double> extend(const std::vector<double>& sd, const std::vector<double>& v, const std::vector<char>& active, int w, int h, double eps, uint64_t seed, bool& divZero, std::vector<char>* frozen, std::vector<double>* marched) {
    March m(sd, w, h, eps, seed); m.active = &active; m.vel = v; m.run(); divZero = m.divZero; if (frozen) *frozen = m.frozen; if (marched) *marched = m.sd; return m.vel;
}
}
