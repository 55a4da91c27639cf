// Exact / heuristic TSP oracle, independent of the solver.  Reads csv paths on stdin; prints "path n exact value".
// n <= LIM: Held-Karp dynamic programming (exact; "inf" when no Hamiltonian cycle).  Otherwise: best tour found by
// randomised greedy + 2-opt + Or-opt (an upper bound on the optimum, enough for a one-sided check).
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <algorithm>
#include <iostream>
#include <fstream>
using namespace std;
typedef vector<vector<double>> M;
static bool readcsv(const string &p, M &W) {
    ifstream f(p); string ln; if (!getline(f, ln)) return false;
    vector<vector<double>> rows;
    while (getline(f, ln)) {
        vector<double> r; const char *c = ln.c_str();
        while ((c = strchr(c, '('))) { r.push_back(strtod(c + 1, nullptr)); c++; }
        if (!r.empty()) rows.push_back(r);
    }
    int n = rows.size(); W.assign(n, vector<double>(n, 0));
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) W[i][j] = W[j][i] = rows[i][j];
    return true;
}
static double dp(const M &W) {
    int n = W.size(), m = n - 1; size_t S = (size_t)1 << m; const double INF = HUGE_VAL;
    vector<double> d(S * m, INF);
    for (int i = 0; i < m; i++) if (W[m][i] > 0) d[((size_t)1 << i) * m + i] = W[m][i];
    for (size_t s = 1; s < S; s++) for (int i = 0; i < m; i++) {
        if (!(s >> i & 1)) continue; double c = d[s * m + i]; if (c == INF) continue;
        for (int j = 0; j < m; j++) if (!(s >> j & 1) && W[i][j] > 0) {
            double &t = d[(s | ((size_t)1 << j)) * m + j]; if (c + W[i][j] < t) t = c + W[i][j]; }
    }
    double b = INF;
    for (int i = 0; i < m; i++) if (W[m][i] > 0) b = min(b, d[(S - 1) * m + i] + W[m][i]);
    return b;
}
static double heur(const M &W, unsigned seed, int starts) {
    int n = W.size(); double best = HUGE_VAL; mt19937 g(seed);
    double mx = 0; for (auto &r : W) for (double x : r) mx = max(mx, x);
    const double BIG = 4 * n * mx + 1, TOL = 1e-9 * n * mx; // finite, so that differences keep their precision
    auto w = [&](int a, int b) { return W[a][b] > 0 ? W[a][b] : BIG; };
    vector<int> bt;
    for (int st = 0; st < starts; st++) {
        vector<int> t(n);
        if (st < n) { vector<char> u(n, 0); t[0] = st; u[st] = 1;
            for (int k = 1; k < n; k++) { int b = -1; for (int j = 0; j < n; j++) if (!u[j] && (b < 0 || w(t[k-1], j) < w(t[k-1], b))) b = j; t[k] = b; u[b] = 1; } }
        else { t = bt; for (int k = 0; k < 3; k++) { int a = g() % n, b = g() % n; if (a > b) swap(a, b); reverse(t.begin() + a, t.begin() + b); }
               int a = 1 + g() % (n - 3), b = a + 1 + g() % (n - a - 2 > 0 ? n - a - 2 : 1); rotate(t.begin(), t.begin() + a, t.begin() + min(b, n)); }
        bool imp = true;
        while (imp) { imp = false;
            for (int i = 0; i < n - 1; i++) for (int j = i + 2; j < n; j++) { if (i == 0 && j == n - 1) continue;
                double dlt = w(t[i], t[j]) + w(t[i+1], t[(j+1)%n]) - w(t[i], t[i+1]) - w(t[j], t[(j+1)%n]);
                if (dlt < -TOL) { reverse(t.begin() + i + 1, t.begin() + j + 1); imp = true; } }
            for (int L = 1; L <= 3 && L < n - 2; L++) for (int i = 0; i < n; i++) {
                // move segment t[i..i+L-1] elsewhere
                vector<int> r(t.begin() + 0, t.end()); rotate(r.begin(), r.begin() + i, r.end());
                int a = r[0], b = r[L-1], p = r[n-1], q = r[L];
                double rem = w(p, q) - w(p, a) - w(b, q); int bj = -1; bool rev = false; double bd = -TOL;
                for (int j = L; j < n - 1; j++) {
                    double d1 = rem + w(r[j], a) + w(b, r[j+1]) - w(r[j], r[j+1]);
                    double d2 = rem + w(r[j], b) + w(a, r[j+1]) - w(r[j], r[j+1]);
                    if (d1 < bd) { bd = d1; bj = j; rev = false; } if (d2 < bd) { bd = d2; bj = j; rev = true; } }
                if (bj >= 0) { vector<int> s(r.begin(), r.begin() + L); if (rev) reverse(s.begin(), s.end());
                    vector<int> o(r.begin() + L, r.begin() + bj + 1); o.insert(o.end(), s.begin(), s.end()); o.insert(o.end(), r.begin() + bj + 1, r.end()); t = o; imp = true; }
            } }
        double c = 0; for (int i = 0; i < n; i++) c += w(t[i], t[(i+1)%n]);
        if (c < best) { best = c; bt = t; }
    }
    return best < BIG ? best : HUGE_VAL;
}
int main(int argc, char **argv) {
    int lim = argc > 1 ? atoi(argv[1]) : 16; string p;
    while (getline(cin, p)) {
        M W; if (p.empty() || !readcsv(p, W)) { printf("%s 0 0 0\n", p.c_str()); continue; }
        int n = W.size();
        if (n <= lim) printf("%s %d 1 %.17g\n", p.c_str(), n, dp(W));
        else printf("%s %d 0 %.17g\n", p.c_str(), n, heur(W, 1, 3 * n + 60));
    }
}
