// Exact feasibility of a conjunction of linear inequalities  c + sum k*x <= 0  over the rationals.
#include <cstdint>
#include <vector>
typedef __int128 i128;
typedef int64_t i64;
struct Ovf {};
static i128 g128(i128 a, i128 b)
{
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { i128 t = a % b; a = b; b = t; }
    return a;
}
static const i128 LIM = (i128)1 << 62;
struct Q
{
    i64 n = 0, d = 1;
    static Q mk(i128 n, i128 d)
    {
        if (d < 0) { n = -n; d = -d; }
        if (d != 1)
        {
            i128 g = g128(n, d);
            if (g > 1) { n /= g; d /= g; }
        }
        if (n > LIM || n < -LIM || d > LIM) throw Ovf();
        Q r; r.n = (i64)n; r.d = (i64)d; return r;
    }
};
static Q add(const Q& a, const Q& b)
{
    if (a.d == 1 && b.d == 1) return Q::mk((i128)a.n + b.n, 1);
    // scale down first: both denominators fit 62 bits, products may not
    i128 x = (i128)a.n * b.d, y = (i128)b.n * a.d;
    if (a.n && (x / b.d != a.n)) throw Ovf();
    if (b.n && (y / a.d != b.n)) throw Ovf();
    return Q::mk(x + y, (i128)a.d * b.d);
}
static Q mul(const Q& a, const Q& b) { return Q::mk((i128)a.n * b.n, (i128)a.d * b.d); }
static Q dv(const Q& a, const Q& b) { return Q::mk((i128)a.n * b.d, (i128)a.d * b.n); }
static bool lt(const Q& a, const Q& b) { return (i128)a.n * b.d < (i128)b.n * a.d; }

extern "C" int lp_infeasible(int m, int n, const i64* chi, const i64* clo, const int* ptr, const int* col, const i64* val)
{
    // difference constraints: negative cycle?  node n = zero
    struct E { int u, v; i128 w; };
    std::vector<i128> c(m);
    bool big = false;
    for (int i = 0; i < m; i++)
    {
        c[i] = ((i128)chi[i] << 32) + clo[i];
        if (c[i] > LIM || c[i] < -LIM) big = true;
    }
    std::vector<E> es;
    bool alldiff = true;
    for (int i = 0; i < m; i++)
    {
        int k = ptr[i + 1] - ptr[i];
        const int* cc = col + ptr[i];
        const i64* vv = val + ptr[i];
        if (k == 1 && vv[0] == 1) es.push_back({n, cc[0], -c[i]});          // x - 0 <= -c
        else if (k == 1 && vv[0] == -1) es.push_back({cc[0], n, -c[i]});    // 0 - x <= -c
        else if (k == 2 && vv[0] == 1 && vv[1] == -1) es.push_back({cc[1], cc[0], -c[i]});
        else if (k == 2 && vv[0] == -1 && vv[1] == 1) es.push_back({cc[0], cc[1], -c[i]});
        else alldiff = false;
    }
    {
        std::vector<i128> dist(n + 1, 0);
        for (int it = 0; it <= n + 1; it++)
        {
            bool ch = false;
            for (auto& e : es)
                if (dist[e.u] + e.w < dist[e.v]) { dist[e.v] = dist[e.u] + e.w; ch = true; }
            if (!ch) break;
            if (it == n + 1) return 1;
        }
        if (alldiff) return 0;
    }
    if (big) return -1;
    try
    {
        // general simplex: slacks n..n+m-1 basic with upper bound -c, structural variables free and nonbasic
        int N = n; // columns
        std::vector<std::vector<Q>> T(m, std::vector<Q>(N));
        std::vector<int> bas(m), nb(N);
        std::vector<Q> valv(n + m), ub(n + m);
        std::vector<char> hasub(n + m, 0);
        for (int j = 0; j < N; j++) nb[j] = j;
        for (int i = 0; i < m; i++)
        {
            bas[i] = n + i;
            hasub[n + i] = 1;
            ub[n + i] = Q::mk(-c[i], 1);
            for (int p = ptr[i]; p < ptr[i + 1]; p++) T[i][col[p]] = Q::mk(val[p], 1);
        }
        for (int it = 0; it < 20000; it++)
        {
            int r = -1;
            for (int i = 0; i < m; i++)
                if (hasub[bas[i]] && lt(ub[bas[i]], valv[bas[i]]) && (r < 0 || bas[i] < bas[r])) r = i;
            if (r < 0) return 0;
            int e = -1;
            for (int j = 0; j < N; j++)
            {
                const Q& a = T[r][j];
                if (!a.n) continue;
                bool ok = a.n > 0 || !hasub[nb[j]] || lt(valv[nb[j]], ub[nb[j]]);
                if (ok && (e < 0 || nb[j] < nb[e])) e = j;
            }
            if (e < 0) return 1;
            int v = bas[r], x = nb[e];
            Q a = T[r][e];
            Q neg; neg = Q::mk(-(i128)valv[v].n, valv[v].d);
            Q theta = dv(add(ub[v], neg), a);
            valv[v] = ub[v];
            valv[x] = add(valv[x], theta);
            for (int i = 0; i < m; i++)
                if (i != r && T[i][e].n) valv[bas[i]] = add(valv[bas[i]], mul(T[i][e], theta));
            // pivot
            std::vector<Q> row(N);
            Q one; one.n = 1;
            for (int j = 0; j < N; j++)
                if (j != e && T[r][j].n) { Q q = dv(T[r][j], a); q.n = -q.n; row[j] = q; }
            row[e] = dv(one, a);
            T[r] = row;
            bas[r] = x;
            nb[e] = v;
            for (int i = 0; i < m; i++)
            {
                if (i == r || !T[i][e].n) continue;
                Q k = T[i][e];
                T[i][e] = Q();
                for (int j = 0; j < N; j++)
                    if (row[j].n) T[i][j] = add(T[i][j], mul(k, row[j]));
            }
        }
        return -1;
    }
    catch (Ovf&)
    {
        return -1;
    }
}
