// Data generator and sequential reference models.  Nothing here calls the code under test.
#include "h.hpp"
#include <random>
#include <algorithm>
static u64 hsh(u64 a, u64 b, u64 c, u64 d) { u64 z = a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull) * 0xBF58476D1CE4E5B9ull ^ (c + 11) * 0x94D049BB133111EBull ^ (d + 7) * 0xD6E8FEB86659FD93ull; z ^= z >> 31; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 29; z *= 0x94D049BB133111EBull; return z ^ (z >> 32); }
static double uni(u64 h) { return (h >> 11) * (1.0 / 9007199254740992.0); }
static double dy(double v) { return std::floor(v * 1024 + 0.5) / 1024; }    // dyadic: sums of a few thousand are exact
// The unit of a column (DKIND / 16): one, all tiny, all huge, or a different one for every column; powers of two, so nothing is rounded
static double unit_of(const Params& p, size_t j) { switch (p[DKIND] / 16) { case 0: return 1; case 1: return std::ldexp(1.0, -60); case 2: return std::ldexp(1.0, 40); default: return std::ldexp(1.0, 20 * ((int)(hsh((u64)p[DSEED], j, 77, 3) % 5) - 3)); } }
void fill_data(const Params& p, double* x, u64 salt) {
    u64 s = (u64)p[DSEED] * 1000003 + salt; size_t n = p[N], d = p[D]; int kind = (int)(p[DKIND] % 16);
    u64 nb = 2 + hsh(s, 1, 2, 3) % 6;
    for (size_t i = 0; i < n; i++) {
        u64 src = i; if (kind == 3) src = hsh(s, i, 0, 99) % (1 + n / 3 + 2);            // duplicate rows
        for (size_t j = 0; j < d; j++) {
            u64 h = hsh(s, src, j, 1); double u = uni(h), v = 0;
            switch (kind) {
            case 0: { u64 b = hsh(s, src, 0, 5) % nb; v = (uni(hsh(s, b, j, 6)) - 0.5) * 200 + (u - 0.5) * 20; break; }   // blobs, mixed sign
            case 1: v = (u - 0.5) * 200; break;
            case 2: v = 1 + u * 60; break;
            case 3: v = (u - 0.5) * 50; break;
            case 4: v = (double)(int)(h % 7) - 3; break;
            case 5: { u64 b = hsh(s, src, 0, 5) % nb; v = 100000 + uni(hsh(s, b, j, 6)) * 8 + u; break; }
            case 6: v = j == 0 ? (double)src * (1 + (double)src / 40) * 0.5 + u * .2 : u; break;   // long drift along a line
            case 7: v = (h % 5) ? 0 : (u - 0.5) * 100; break;
            case 9: v = -1 - u * 60; break;
            default: x[i * d + j] = ((u - 0.5) * 37.7123 + 1e-3 * uni(hsh(s, src, j, 8))) * unit_of(p, j); continue;
            }
            x[i * d + j] = dy(v) * unit_of(p, j);
        }
    }
}
rvec<double> data_v(const Params& p, u64 salt) { rvec<double> x(p[N] * p[D]); fill_data(p, x.data(), salt); return x; }
double tol_of(const Params& p) {
    switch (p[TOL]) { case 0: return -1; case 1: return 0.01; case 2: return 0.1; case 3: return 0.4; case 4: return (double)(1 + p[N] / 8) / (double)p[N]; case 5: return (double)(1 + p[N] / 20) / (double)p[N]; case 6: return 1e-6; default: return -1; }
}
double scale_of(const rvec<double>& x);
rvec<double> centers_v(const Params& p, const rvec<double>& x) {
    size_t k = p[K], d = p[D], n = p[N]; rvec<double> c(k * d); u64 s = (u64)p[DSEED] + 4242;
    for (size_t i = 0; i < k; i++) { u64 r = hsh(s, i, 1, 1) % n; for (size_t j = 0; j < d; j++) c[i * d + j] = x[r * d + j] + dy(((double)(hsh(s, i, j, 2) % 64) / 64 + (double)i / 512) * (p[DKIND] % 16 == 5 ? 1 : 3)) * unit_of(p, j); }
    // centres of a special kind: a row itself, no component but zeros, one zero component, another centre again, out of the way of all rows
    u64 v = hsh(s, 7, 7, 7) % 12, i = hsh(s, 8, 8, 8) % k, j = hsh(s, 9, 9, 9) % d;
    if (v == 0) { u64 r = hsh(s, i, 1, 1) % n; for (j = 0; j < d; j++) c[i * d + j] = x[r * d + j]; }
    else if (v == 1) for (j = 0; j < d; j++) c[i * d + j] = 0;
    else if (v == 2) c[i * d + j] = 0;
    else if (v == 3) for (j = 0; j < d; j++) c[i * d + j] = c[hsh(s, 6, 6, 6) % k * d + j];
    else if (v == 4) for (j = 0; j < d; j++) c[i * d + j] = (j & 1 ? -4 : 4) * scale_of(x);
    return c;
}
double scale_of(const rvec<double>& x) { double s = 0; for (double v : x) s = std::max(s, std::fabs(v)); return s > 0 ? s : 1; }
double ref_dist(const double* a, const double* b, size_t d, int dt) {
    double s = 0, l = 0, r = 0;
    switch (dt) {
    case D_COS: for (size_t i = 0; i < d; i++) { s += a[i] * b[i]; l += a[i] * a[i]; r += b[i] * b[i]; } return l == 0 || r == 0 ? 1 : std::max(0.0, 1 - s / (std::sqrt(l) * std::sqrt(r)));
    case D_TAXI: for (size_t i = 0; i < d; i++) s += std::fabs(a[i] - b[i]); return s;
    case D_SQ: for (size_t i = 0; i < d; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s;
    default: for (size_t i = 0; i < d; i++) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s);
    }
}
// nearest centre; *gap = distance margin to the runner-up
// (dup: an identical copy of the nearest centre is no rival, the first of them wins)
static u32 nearest(const double* x, const double* c, size_t k, size_t d, int dt, double* best, double* gap, bool dup = true) {
    double b = DBL_MAX, b2 = DBL_MAX; u32 w = ~0u;
    for (size_t i = 0; i < k; i++) { double v = ref_dist(x, c + i * d, d, dt); if (!(v == v)) { v = DBL_MAX; } if (v < b) { b2 = b; b = v; w = (u32)i; } else if (v < b2 && !(dup && v == b && w != ~0u && !memcmp(c + i * d, c + w * d, d * 8))) b2 = v; }
    if (dt == D_COS) { bool z = true; for (size_t j = 0; j < d; j++) z &= x[j] == 0; if (z) b2 = DBL_MAX; }   // no direction: every centre at exactly 1, the first wins
    *best = b; *gap = b2 - b; return w;
}
static double near_thr(double scale, int dt) { return dt == D_COS ? 1e-9 : dt == D_SQ ? 1e-8 * scale * scale : 1e-9 * scale * 16; }
Ref ref_lloyd(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, i64 iters, double tol, int dt) {
    Ref r; Out& o = r.o; o.nrow = n; o.ncol = d; o.k = k; o.lab.assign(n, ~0u); o.cnt.assign(k, 0); o.cent = init; r.scale = scale_of(x); double thr = near_thr(r.scale, dt);
    bool pruned = gp[ENG] == E_PRUNE || gp[ENG] == E_DTASK || gp[ENG] == E_OMPMIN;     // these keep a row where it is
    for (i64 it = 1; it <= iters; it++) {
        u64 ch = 0; rvec<double> s(k * d, 0.0); o.cnt.assign(k, 0);
        for (size_t i = 0; i < n; i++) {
            double b, gap; u32 w = nearest(&x[i * d], o.cent.data(), k, d, dt, &b, &gap, !pruned || (it == 1 && (gp[INIT] == I_FORGY || gp[INIT] == I_NONE)));
            if (w == ~0u || gap < thr) r.amb = true;
            if (w == ~0u) w = 0;
            if (w != o.lab[i]) ch++; o.lab[i] = w; o.cnt[w]++; for (size_t j = 0; j < d; j++) s[w * d + j] += x[i * d + j];
        }
        for (size_t c = 0; c < k; c++) for (size_t j = 0; j < d; j++) o.cent[c * d + j] = o.cnt[c] ? s[c * d + j] / (double)o.cnt[c] : 0;
        o.iters = it; r.changed = ch;
        if (ch == 0) r.fix = true;
        if (ch == 0 || (double)ch / (double)n <= tol) break;
    }
    return r;
}
void ref_normalise(rvec<double>& x, size_t n, size_t d) {
    for (size_t j = 0; j < d; j++) {
        double lo = x[j], hi = x[j]; for (size_t i = 0; i < n; i++) { lo = std::min(lo, x[i * d + j]); hi = std::max(hi, x[i * d + j]); }
        for (size_t i = 0; i < n; i++) x[i * d + j] = hi > lo ? (x[i * d + j] - lo) / (hi - lo) : 0;
    }
}
Ref ref_mb(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, const rvec<u32>& lab0, i64 iters, double tol, int dt, i64 mb, size_t T) {
    Ref r; Out& o = r.o; o.nrow = n; o.ncol = d; o.k = k; o.cent = init; o.lab = lab0; r.scale = scale_of(x); double thr = near_thr(r.scale, dt);
    if (T > n) T = n;
    if (mb / (i64)T < 1) mb = 1;
    double pc = (double)mb / (double)n; rvec<std::default_random_engine> gen(T); std::uniform_real_distribution<double> ur(0, 1); size_t per = n / T;
    for (i64 it = 0; it < iters; it++) {
        rvec<rvec<u32>> smp(T);
        for (size_t t = 0; t < T; t++) { size_t lo = t * per, hi = t + 1 == T ? n : lo + per; for (size_t i = lo; i < hi; i++) { if (ur(gen[t]) > pc) continue; double b, gap; u32 w = nearest(&x[i * d], o.cent.data(), k, d, dt, &b, &gap, it > 0 || gp[INIT] != I_KMPP); if (gap < thr || w == ~0u) r.amb = true; o.lab[i] = w; smp[t].push_back((u32)i); } }
        rvec<u64> v(k, 0); for (size_t i = 0; i < n; i++) if (o.lab[i] != ~0u) v[o.lab[i]]++;
        rvec<double> prev = o.cent;
        for (size_t t = 0; t < T; t++) for (u32 i : smp[t]) { u32 c = o.lab[i]; double e = 1.0 / (double)v[c]; for (size_t j = 0; j < d; j++) o.cent[c * d + j] = (1 - e) * o.cent[c * d + j] + e * x[i * d + j]; }
        double q = 0; for (size_t i = 0; i < k * d; i++) q += (o.cent[i] - prev[i]) * (o.cent[i] - prev[i]); q = std::sqrt(q);
        o.iters = it + 1;
        if (std::fabs(q - tol) < 1e-9 * r.scale) r.amb = true;
        if (q < tol) { r.fix = true; break; }
    }
    o.cnt.assign(k, 0); for (size_t i = 0; i < n; i++) { double b, gap; u32 w = nearest(&x[i * d], o.cent.data(), k, d, dt, &b, &gap); if (gap < thr) r.amb = true; o.lab[i] = w; o.cnt[w]++; }
    return r;
}
static RefFcm fcm_once(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, i64 iters, double tol, int dt, i64 fuzz, double eps) {
    RefFcm r; Out& o = r.o; o.nrow = n; o.ncol = d; o.k = k; o.cent = init; r.um.assign(n * k, 0); double scale = scale_of(x);
    for (i64 it = 1; it <= iters; it++) {
        for (size_t i = 0; i < n; i++) {
            double s = 0; int close = 0; // centres the row is at but for rounding
            for (size_t c = 0; c < k; c++) { double v = ref_dist(&x[i * d], &o.cent[c * d], d, dt); double near = dt == D_COS ? 1e-7 : 1e-9 * scale; if (!(v == v)) r.amb = true; if (v != 0 && std::fabs(v) < near && (fuzz > 2 || dt == D_COS || close++)) r.amb = true; if (v == 0) close++; if (v == 0 && dt == D_COS) r.amb = true;
                double m = std::pow(1.0 / (v > 0 ? v : 2.2E-16), 1.0 / (double)(fuzz - 1)); r.um[i * k + c] = m; s += m; }
            for (size_t c = 0; c < k; c++) r.um[i * k + c] = std::pow(r.um[i * k + c] / s, (double)fuzz);
        }
        rvec<double> prev = o.cent; double q = 0;
        for (size_t c = 0; c < k; c++) { double w = 0; rvec<double> s(d, 0.0); for (size_t i = 0; i < n; i++) { w += r.um[i * k + c]; for (size_t j = 0; j < d; j++) s[j] += r.um[i * k + c] * x[i * d + j]; } for (size_t j = 0; j < d; j++) o.cent[c * d + j] = s[j] / w * ((c + j) % 2 ? 1 - eps : 1 + eps); }
        for (size_t i = 0; i < k * d; i++) { if (!(o.cent[i] == o.cent[i])) r.amb = true; q += (o.cent[i] - prev[i]) * (o.cent[i] - prev[i]); } q = std::sqrt(q);
        o.iters = it; if (std::fabs(q - tol) < 1e-7 * scale) r.amb = true;
        if (q < tol) break;
    }
    o.lab.assign(n, 0); o.cnt.assign(k, 0);
    for (size_t i = 0; i < n; i++) { size_t w = 0; for (size_t c = 1; c < k; c++) if (r.um[i * k + c] > r.um[i * k + w]) w = c; o.lab[i] = (u32)w; o.cnt[w]++; }
    return r;
}
// A run whose result moves visibly when every pass is disturbed by rounding has no result to compare with.
RefFcm ref_fcm(const rvec<double>& x, size_t n, size_t d, size_t k, const rvec<double>& init, i64 iters, double tol, int dt, i64 fuzz) {
    RefFcm r = fcm_once(x, n, d, k, init, iters, tol, dt, fuzz, 0); if (r.amb) return r;
    RefFcm p = fcm_once(x, n, d, k, init, iters, tol, dt, fuzz, 1e-13); double lim = 1e-7 * scale_of(x);
    if (p.o.iters != r.o.iters) r.amb = true; for (size_t i = 0; i < k * d; i++) if (!(std::fabs(p.o.cent[i] - r.o.cent[i]) < lim)) r.amb = true;
    return r;
}
Ref ref_medoid(const rvec<double>& x, size_t n, size_t d, size_t k, i64 iters, double tol, int dt, double rate, size_t T, const rvec<double>& init) {
    Ref r; Out& o = r.o; o.nrow = n; o.ncol = d; o.k = k; o.cent = init; o.lab.assign(n, ~0u); r.scale = scale_of(x); double thr = near_thr(r.scale, dt);
    if (T > n) T = n; size_t per = n / T; rvec<std::default_random_engine> gen(T); std::uniform_real_distribution<double> ur(0, 1); rate = std::max(.2, rate);
    rvec<double> en(k); u64 ch = 0;
    auto em = [&]() { ch = 0; o.cnt.assign(k, 0); en.assign(k, 0.0); for (size_t i = 0; i < n; i++) { double b, gap; u32 w = nearest(&x[i * d], o.cent.data(), k, d, dt, &b, &gap); if (gap < thr || w == ~0u) { r.amb = true; if (w == ~0u) w = 0; } if (w != o.lab[i]) ch++; o.lab[i] = w; o.cnt[w]++; en[w] += b; } };
    em();
    for (i64 it = 1; it <= iters; it++) {
        rvec<double> be(k, DBL_MAX); rvec<i64> bi(k, -1); double ethr = thr * (double)n;
        for (size_t t = 0; t < T; t++) { size_t lo = t * per, hi = t + 1 == T ? n : lo + per;
            for (size_t i = lo; i < hi; i++) { if (ur(gen[t]) > rate) continue; u32 c = o.lab[i]; double e = 0; for (size_t m = 0; m < n; m++) if (m != i && o.lab[m] == c) e += ref_dist(&x[i * d], &x[m * d], d, dt);
                if (bi[c] >= 0 && std::fabs(e - be[c]) < ethr) { bool eq = true; for (size_t j = 0; j < d; j++) eq &= x[i * d + j] == x[bi[c] * d + j]; if (!eq) r.amb = true; }
                if (e < be[c]) { be[c] = e; bi[c] = (i64)i; } } }
        for (size_t c = 0; c < k; c++) if (bi[c] >= 0) { bool eq = true; for (size_t j = 0; j < d; j++) eq &= x[bi[c] * d + j] == o.cent[c * d + j]; if (!eq && std::fabs(be[c] - en[c]) < ethr) r.amb = true; if (be[c] < en[c]) for (size_t j = 0; j < d; j++) o.cent[c * d + j] = x[bi[c] * d + j]; }
        em(); o.iters = it;
        if (ch == 0) r.fix = true;
        if (ch == 0 || (double)ch / (double)n <= tol) break;
    }
    return r;
}

// Hierarchical (kind 0), x-means (1) and g-means (2): the whole algorithm, one row after the other.
static double ad_stat(rvec<double> v, bool* amb) {
    size_t n = v.size(); double big = 1; for (double q : v) { if (!(q == q) || std::fabs(q) > 1e9) { *amb = true; return 0; } big = std::max(big, std::fabs(q)); }
    std::sort(v.begin(), v.end()); double m = 0; for (double q : v) m += q; m /= (double)n; double s = 0; for (double q : v) s += (q - m) * (q - m);
    if (n < 2) { *amb = true; return 0; }
    s = std::sqrt(s / (double)(n - 1)); if (s < 1e-8 * big) { *amb = true; return 0; }
    auto phi = [](double x) { return .5 * std::erfc(-x * M_SQRT1_2); }; double a = -(double)n;
    for (size_t i = 0; i < n; i++) a -= (2.0 * (double)i + 1) / (double)n * (std::log(phi((v[i] - m) / s)) + std::log(1 - phi((v[n - 1 - i] - m) / s)));
    return a;
}
static bool bic_keeps(double N, double nl, double nr, double d, double ps, double cs) {      // is the split kept?
    double P = DBL_MIN, C = DBL_MIN;
    if (N - 1 > 0) { double s = ps / (N - 1); P = -N * std::log(2 * M_PI) * .5 - N * d * std::log(s) * .5 - (N - 1) * .5 - (d + 1) * .5 * std::log(N); }
    if (N - 2 > 0) { double s = cs / (N - 2), p = 2 * d + 2, c0 = -N * std::log(2 * M_PI) * .5 - N * d * std::log(s) * .5 - (N - 2) * .5; C = c0 + N * std::log(N) - nl * std::log(N) - p * .5 * std::log(N) + (c0 + N * std::log(N) - nr * std::log(N) - p * .5 * std::log(N)); }
    return !(P > C);
}
Ref ref_hier(const rvec<double>& x, size_t n, size_t d, size_t k, i64 iters, double tol, int dt, i64 minsz, int kind, int strict, const double* given) {
    Ref r; r.scale = scale_of(x); double thr = near_thr(r.scale, dt);
    struct Part { u32 c[2]; rvec<double> m; u64 cnt[2]; bool conv = false; };
    rmap<u32, Part> h; rmap<u32, rvec<double>> fin; rvec<u32> lab(n, 0), part(n, 0), free_; u32 maxid = 0; rmap<u32, u64> cnt; rmap<u32, bool> act; rvec<double> nd(n, 0.0), pd(n, 0.0);
    size_t kk = (size_t)1 << (63 - __builtin_clzll((u64)k)); kk /= 2; size_t cap = kk * 2, cur = 2; if (minsz < 2) minsz = 2;
    auto id = [&]() { if (free_.size()) { u32 v = free_.back(); free_.pop_back(); return v; } return ++maxid; };
    auto row = [&](size_t i) { return rvec<double>(x.begin() + i * d, x.begin() + (i + 1) * d); };
    auto add = [&](u32 pid, const rvec<double>& a, const rvec<double>& b) { Part p; p.c[0] = id(); p.c[1] = id(); p.m = a; p.m.insert(p.m.end(), b.begin(), b.end()); p.cnt[0] = p.cnt[1] = 0; act[p.c[0]] = act[p.c[1]] = true; h[pid] = p; };
    act[0] = true;
    if (given) add(0, rvec<double>(given, given + d), rvec<double>(given + d, given + 2 * d));
    else { std::default_random_engine g; std::uniform_int_distribution<unsigned> u(0, (unsigned)n - 1); size_t a = u(g), b = u(g); add(0, row(a), row(b)); }
    for (int round = 0; ; round++) {
        if (round > 10000) { r.amb = true; return r; }
        rmap<u32, rvec<double>> pm; rmap<u32, u64> pc;
        if (kind) { for (size_t i = 0; i < n; i++) if (act[lab[i]]) { auto& m = pm[part[i]]; if (m.empty()) m.assign(d, 0.0); for (size_t j = 0; j < d; j++) m[j] += x[i * d + j]; pc[part[i]]++; } for (auto& kv : pm) for (double& v : kv.second) v /= (double)pc[kv.first]; }
        if (kind) for (size_t i = 0; i < n; i++) if (pm.count(part[i])) pd[i] = ref_dist(&x[i * d], pm[part[i]].data(), d, dt);
        for (i64 it = 0; it < iters; it++) {
            rmap<u32, u64> ch; rmap<u32, rvec<double>> s; rmap<u32, std::pair<u64, u64>> c;
            for (size_t i = 0; i < n; i++) {
                if (!act[lab[i]]) continue; auto f = h.find(part[i]); if (f == h.end()) { r.amb = true; return r; } Part& p = f->second; if (p.conv) continue;
                double b, gap; u32 w = nearest(&x[i * d], p.m.data(), 2, d, dt, &b, &gap); if (w == ~0u) { r.amb = true; return r; } if (gap < thr) r.amb = true;
                nd[i] = b; if (lab[i] != p.c[w]) ch[part[i]]++; lab[i] = p.c[w];
                auto& sm = s[part[i]]; if (sm.empty()) sm.assign(2 * d, 0.0); for (size_t j = 0; j < d; j++) sm[w * d + j] += x[i * d + j]; (w ? c[part[i]].second : c[part[i]].first)++;
            }
            for (auto& kv : h) { Part& p = kv.second; if (!p.conv) { auto q = c[kv.first]; p.cnt[0] = q.first; p.cnt[1] = q.second; auto& sm = s[kv.first]; if (sm.empty()) sm.assign(2 * d, 0.0);
                    for (int w = 0; w < 2; w++) for (size_t j = 0; j < d; j++) p.m[w * d + j] = p.cnt[w] ? sm[w * d + j] / (double)p.cnt[w] : 0;
                    u64 g = ch[kv.first]; if (g == 0 || (double)g / (double)(p.cnt[0] + p.cnt[1]) <= tol) p.conv = true; }
                cnt[kv.first] = 0; cnt[p.c[0]] = p.cnt[0]; cnt[p.c[1]] = p.cnt[1]; }
        }
        rvec<u32> keys; for (auto& kv : h) keys.push_back(kv.first); std::sort(keys.begin(), keys.end());
        rvec<u32> rev;
        if (kind == 1) for (u32 q : keys) { Part& p = h[q]; double ps = 0, cs = 0, N = (double)(p.cnt[0] + p.cnt[1]); for (size_t i = 0; i < n; i++) if (lab[i] == p.c[0] || lab[i] == p.c[1]) { ps += pd[i]; cs += nd[i]; }
                double e = std::max(thr, 1e-7) * (N + 1); bool k0 = bic_keeps(N, (double)p.cnt[0], (double)p.cnt[1], (double)d, ps, cs);
                for (int z = 0; z < 4; z++) if (bic_keeps(N, (double)p.cnt[0], (double)p.cnt[1], (double)d, z & 1 ? ps + e : std::max(0.0, ps - e), z & 2 ? cs + e : std::max(0.0, cs - e)) != k0) r.amb = true;
                if (!k0) rev.push_back(q); }
        if (kind == 2) {
            rmap<u32, rvec<double>> av; rmap<u32, rvec<double>> v; rmap<u32, double> vv;
            for (u32 q : keys) { Part& p = h[q]; rvec<double> t(d); double z = 0; for (size_t j = 0; j < d; j++) { t[j] = p.m[j] - p.m[d + j]; z += t[j] * t[j]; } v[q] = t; vv[q] = z; if (z < thr * thr) r.amb = true; }
            for (size_t i = 0; i < n; i++) { if (act[lab[i]] && v.count(part[i])) { double t = 0; for (size_t j = 0; j < d; j++) t += x[i * d + j] * v[part[i]][j]; nd[i] = t / vv[part[i]]; } av[part[i]].push_back(nd[i]); }
            const double A[5] = { 0.576, 0.656, 0.787, 0.918, 1.092 };
            for (u32 q : keys) { if (!av.count(q)) { r.amb = true; continue; } double N = (double)av[q].size(), cv = A[strict] / (1 + 4 / N - 25 / (N * N)), s = ad_stat(av[q], &r.amb); if (std::fabs(s - cv) < 1e-5 * (1 + std::fabs(s))) r.amb = true; if (s <= cv) rev.push_back(q); }
        }
        if (r.amb) return r;
        for (u32 q : rev) { Part p = h[q]; for (size_t i = 0; i < n; i++) if (lab[i] == p.c[0] || lab[i] == p.c[1]) lab[i] = q;
            cnt[q] = p.cnt[0] + p.cnt[1]; cnt[p.c[0]] = cnt[p.c[1]] = 0; act[p.c[0]] = act[p.c[1]] = act[q] = false; cur--; fin[q] = pm[q]; free_.push_back(p.c[0]); free_.push_back(p.c[1]); h.erase(q); }
        if (cur >= cap) break;
        keys.clear(); for (auto& kv : h) keys.push_back(kv.first); std::sort(keys.begin(), keys.end());
        rvec<u32> gone;
        for (u32 q : keys) {
            Part p = h[q]; bool stop[2];
            for (int w = 0; w < 2; w++) { stop[w] = cnt[p.c[w]] < (u64)minsz || cur + (w && !stop[0] ? 1 : 0) >= cap; if (stop[w]) { act[p.c[w]] = false; fin[p.c[w]] = rvec<double>(p.m.begin() + w * d, p.m.begin() + (w + 1) * d); } }
            gone.push_back(q);
            for (int w = 0; w < 2; w++) if (!stop[w]) { size_t a = n, b = n; for (size_t i = 0; i < n; i++) if (lab[i] == p.c[w]) { if (a == n) a = i; else { b = i; break; } } if (b == n) { r.amb = true; return r; } add(p.c[w], row(a), row(b)); cur++; }
        }
        for (u32 q : gone) { h.erase(q); act[q] = false; free_.push_back(q); }
        part = lab;
        if (h.empty()) break;
    }
    for (auto& kv : h) for (int w = 0; w < 2; w++) fin[kv.second.c[w]] = rvec<double>(kv.second.m.begin() + w * d, kv.second.m.begin() + (w + 1) * d);
    Out& o = r.o; o.nrow = n; o.ncol = d; rmap<u32, u32> m;
    for (size_t i = 0; i < n; i++) { auto f = m.find(lab[i]); if (f == m.end()) { u32 c = (u32)m.size(); m[lab[i]] = c; o.cnt.push_back(0); auto& z = fin[lab[i]]; z.resize(d); o.cent.insert(o.cent.end(), z.begin(), z.end()); o.lab.push_back(c); } else o.lab.push_back(f->second); o.cnt[o.lab[i]]++; }
    o.k = m.size(); o.iters = (u64)iters;
    return r;
}
