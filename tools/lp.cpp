// Exact rational feasibility of a system of linear constraints (general simplex
// with Bland's rule). This is the emptiness test of the polyhedra domain.
#include <gmpxx.h>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
using std::vector;

// text: nvars nrows, then per variable "f" (free) or "n" (>=0), then per row:
// kind ('>' or '=') const k then k pairs (var coef)...   meaning  const + sum coef*var  (>=|=) 0
extern "C" int lp_feasible(const char *s, long maxpiv) {
    char *p = const_cast<char*>(s);
    auto nextTok = [&](char *&b, size_t &n) {
        while (*p == ' ' || *p == '\n') ++p;
        b = p; while (*p && *p != ' ' && *p != '\n') ++p; n = p - b;
    };
    auto nextInt = [&]() { char *b; size_t n; nextTok(b, n); return strtol(b, nullptr, 10); };
    auto nextQ = [&]() { char *b; size_t n; nextTok(b, n); mpq_class q(std::string(b, n)); return q; };
    int nv = nextInt(), nr = nextInt();
    int N = nv + nr;
    vector<bool> hasLo(N, false), hasHi(N, false);
    vector<mpq_class> lo(N), val(N);   // upper bound only ever equals lo (equalities) -> hi
    vector<mpq_class> hi(N);
    for (int i = 0; i < nv; ++i) { char *b; size_t n; nextTok(b, n); if (*b == 'n') { hasLo[i] = true; } }
    // tableau: basic row r: x_basic = sum T[r][j] * x_nonbasic[j]
    vector<vector<mpq_class>> T(nr, vector<mpq_class>(nv));
    vector<int> basic(nr), nonb(nv);
    for (int j = 0; j < nv; ++j) nonb[j] = j;
    for (int r = 0; r < nr; ++r) {
        char *b; size_t n; nextTok(b, n); bool eq = (*b == '=');
        mpq_class c = nextQ(); int k = nextInt();
        for (int i = 0; i < k; ++i) { int v = nextInt(); T[r][v] += nextQ(); }
        basic[r] = nv + r;
        hasLo[nv + r] = true; lo[nv + r] = -c;
        if (eq) { hasHi[nv + r] = true; hi[nv + r] = -c; }
    }
    // initial nonbasic values: 0 (satisfies lo>=0), basics = 0
    for (long it = 0; it < maxpiv; ++it) {
        int br = -1; bool low = false; int bestVar = N;
        for (int r = 0; r < nr; ++r) {
            int x = basic[r];
            bool vl = hasLo[x] && val[x] < lo[x], vh = hasHi[x] && val[x] > hi[x];
            if ((vl || vh) && x < bestVar) { bestVar = x; br = r; low = vl; }
        }
        if (br < 0) return 1;
        int x = basic[br];
        int bc = -1, bn = N;
        for (int j = 0; j < nv; ++j) {
            int y = nonb[j]; int sg = sgn(T[br][j]);
            if (!sg) continue;
            bool up = low ? sg > 0 : sg < 0;  // need to increase y?
            bool ok = up ? !(hasHi[y] && val[y] >= hi[y]) : !(hasLo[y] && val[y] <= lo[y]);
            if (ok && y < bn) { bn = y; bc = j; }
        }
        if (bc < 0) return 0;
        // pivot and update
        int y = nonb[bc];
        mpq_class target = low ? lo[x] : hi[x];
        mpq_class theta = (target - val[x]) / T[br][bc];
        val[x] = target; val[y] += theta;
        for (int r = 0; r < nr; ++r) if (r != br && sgn(T[r][bc])) val[basic[r]] += T[r][bc] * theta;
        mpq_class inv = 1 / T[br][bc];
        // x = ... + a*y  => y = inv*x - sum inv*T
        for (int j = 0; j < nv; ++j) if (j != bc && sgn(T[br][j])) T[br][j] *= -inv;
        T[br][bc] = inv;
        for (int r = 0; r < nr; ++r) {
            if (r == br || !sgn(T[r][bc])) continue;
            mpq_class f = T[r][bc];
            T[r][bc] = 0;
            for (int j = 0; j < nv; ++j) if (sgn(T[br][j])) T[r][j] += f * T[br][j];
        }
        basic[br] = y; nonb[bc] = x;
    }
    return 2;
}
