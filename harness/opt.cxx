// Runs Especia's optimizer on a generated objective, records every evaluation, and checks the history against
// a sequential reference of the documented evolution strategy that takes the recorded costs.
// usage: opt key=value...
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <system_error>
#include <valarray>
#include <vector>
#include "decompose.h"
#include "deviates.h"
#include "model.h"
#include "optimizer.h"
#include "profiles.h"
#include "random.h"

#define RAW __attribute__ ((no_sanitize_thread))
using especia::natural;
using especia::real;
using namespace std;

extern "C" void sim_record (const void *, size_t);
extern "C" unsigned long sim_fiber ();

static const int N = 48;
struct Rec
{
  int type; // 1 begin, 2 end, 3 trace, 4 throw
  int fiber;
  long call;
  double y, a, b;
  double x[N];
};
static Rec *recs;
static long nrec, maxrec, calls;
static map<string, string> opt;

static double num (const char *k, double d = 0) { auto i = opt.find (k); return i == opt.end () ? d : strtod (i->second.c_str (), nullptr); }

struct Mix
{
  uint64_t s;
  uint64_t next () { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  double u () { return (double)(next () >> 11) / 9007199254740992.0; }
  double in (double a, double b) { return a + (b - a) * u (); }
};

RAW static long note (int type, const real *x, natural n, double y, double a, double b, long call)
{
  if (type == 1) call = calls++;
  if (nrec < maxrec)
    {
      Rec &r = recs[nrec++];
      r.type = type; r.fiber = (int)sim_fiber (); r.call = call; r.y = y; r.a = a; r.b = b;
      for (natural i = 0; i < N; ++i) r.x[i] = x && i < n ? x[i] : 0;
    }
  return call;
}

struct Objective
{
  int kind;
  double scale, off;
  vector<double> c, w;
  vector<vector<double> > R;
  int throwkind;
  long throwcall;
  bool record;

  double raw (const real *x, natural n) const
  {
    double s = 0;
    switch (kind)
      {
      case 0: for (natural i = 0; i < n; ++i) s += w[i] * (x[i] - c[i]) * (x[i] - c[i]); return s;
      case 1: for (natural i = 0; i + 1 < n; ++i) s += 10 * (x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]) + (1 - x[i]) * (1 - x[i]);
        return n > 1 ? s : (1 - x[0]) * (1 - x[0]);
      case 2:
        for (natural i = 0; i < n; ++i) { double t = 0; for (natural j = 0; j < n; ++j) t += R[i][j] * (x[j] - c[j]); s += w[i] * pow (10.0, 2.0 * i / n) * t * t; }
        return s;
      case 3: for (natural i = 0; i < n; ++i) s += w[i] * fabs (x[i] - c[i]); return s;
      case 4: for (natural i = 0; i < n; ++i) s += w[i] * (x[i] - c[i]) * (x[i] - c[i]); return floor (s * 2) / 2;
      case 5: return 3.25;
      case 6: for (natural i = 0; i < n; ++i) s += w[i] * (x[i] - c[i]) * (x[i] - c[i]); return x[0] > c[0] ? numeric_limits<double>::quiet_NaN () : s;
      case 7: for (natural i = 0; i < n; ++i) s += w[i] * (x[i] - c[i]) * (x[i] - c[i]); return s > 2 ? numeric_limits<double>::infinity () : s;
      case 8:
        { uint64_t h = 1469598103934665603ull; for (natural i = 0; i < n; ++i) { uint64_t b; memcpy (&b, &x[i], 8); h = (h ^ b) * 1099511628211ull; h ^= h >> 29; } return (double)(h >> 11) / 9007199254740992.0; }
      case 9: for (natural i = 0; i < n; ++i) s += exp (fabs (x[i] - c[i]) * 40); return s * 1e200;
      case 10: for (natural i = 0; i < n; ++i) s += w[i] * x[i]; return s;
      case 11: for (natural i = 0; i < n; ++i) s += w[i] * (x[i] - c[i]) * (x[i] - c[i]); return s - 1e6;
      case 12: return numeric_limits<double>::quiet_NaN ();
      default: for (natural i = 0; i < n; ++i) s += w[i] * (1 - cos (5 * (x[i] - c[i]))) + (x[i] - c[i]) * (x[i] - c[i]); return s;
      }
  }
  real operator() (const real x[], natural n) const
  {
    const long k = record ? note (1, x, n, 0, 0, 0, 0) : -1;
    if (record && throwkind && (throwcall == k || (throwcall < 0 && k >= -throwcall)))
      {
        note (4, x, n, 0, 0, 0, k);
        switch (throwkind)
          {
          case 1: throw logic_error ("injected logic error");
          case 2: throw runtime_error ("injected runtime error");
          case 3: throw bad_alloc ();
          case 5: throw 5;
          case 6: throw range_error ("injected range error");
          case 7: throw out_of_range ("injected index error");
          case 8: throw system_error (11, generic_category (), "injected system error");
          case 9: throw bad_exception ();
          default: throw exception ();
          }
      }
    const real y = scale * raw (x, n);
    if (record) note (2, x, n, y, 0, 0, k);
    return y;
  }
};

// bounds, optionally with a cost
struct Constraint
{
  especia::Model<especia::Intergalactic_Doppler>::Bounded_Constraint<real> b;
  vector<double> lo, up;
  double penalty;
  Constraint (const vector<double> &lo, const vector<double> &up, double p) : b (&lo[0], &up[0], lo.size ()), lo (lo), up (up), penalty (p) {}
  bool is_violated (const real x[], natural n) const { return b.is_violated (x, n); }
  real cost (const real x[], natural n) const
  {
    real s = b.cost (x, n);
    if (penalty != 0)
      for (natural i = 0; i < n; ++i) s += penalty * fabs (x[i]);
    return s;
  }
  bool outside (const double *x, natural n, natural &i) const
  {
    for (i = 0; i < n; ++i) if (!(x[i] >= lo[i] && x[i] <= up[i])) return true;
    return false;
  }
};

struct Trace
{
  natural m;
  bool is_tracing (natural g) const { return m > 0 and g % m == 0; }
  void trace (natural g, real y, real a, real b) const { real v[1] = { (real)g }; note (3, v, 1, y, a, b, (long)g); }
};

static void viol (const char *cls, const string &text) { printf ("VIOL %s|%s\n", cls, text.c_str ()); }
static string str (const char *f, ...) { char b[400]; va_list a; va_start (a, f); vsnprintf (b, sizeof b, f, a); va_end (a); return b; }

struct Ref
{
  natural n, par, pop, upd;
  double acc, s;
  natural stop, g = 0;
  vector<double> w, xw, d, B, C, ps, pc;
  vector<vector<double> > u, v, x;
  double ws, wv, cs, cc, c1, cm, damp, en;
  bool optimized = false, underflow = false, repaired = false; // the condition of the covariance was repaired
  especia::Normal_Deviate<especia::Melg19937_64> dev;
  especia::Decompose dec;
  const Constraint &con;
  const double cond = 0.01 / numeric_limits<double>::epsilon ();

  Ref (natural n, natural par, natural pop, natural upd, double acc, natural stop, uint64_t seed, const valarray<real> &x0, const valarray<real> &d0, double s0, const Constraint &con)
      : n (n), par (par), pop (pop), upd (upd), acc (acc), s (s0), stop (stop), w (par), xw (n), d (n), B (n * n, 0.0), C (n * n, 0.0), ps (n, 0.0), pc (n, 0.0), u (pop, vector<double> (n)), v (u), x (u), dev (seed), dec (n), con (con)
  {
    ws = 0; double w2 = 0;
    for (natural i = 0; i < par; ++i) { w[i] = log ((par + 0.5) / (i + 1)); ws += w[i]; w2 += w[i] * w[i]; }
    wv = ws * ws / w2;
    cs = (wv + 2) / (n + wv + 5);
    cc = (4 + wv / n) / (n + 4 + 2 * wv / n);
    c1 = 2 / ((n + 1.3) * (n + 1.3) + wv);
    cm = min (1 - c1, 2 * (wv - 2 + 1 / wv) / ((n + 2.0) * (n + 2.0) + wv));
    damp = 1 + 2 * max (0.0, sqrt ((wv - 1) / (n + 1)) - 1) + cs;
    en = sqrt ((double)n) * (1 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n));
    for (natural i = 0; i < n; ++i) { xw[i] = x0[i]; d[i] = d0[i]; B[i * n + i] = 1; C[i * n + i] = d0[i] * d0[i]; }
  }
  // the deviates of a generation can be used again
  vector<double> drawn;
  size_t next = 0;
  double draw ()
  {
    if (next == drawn.size ()) drawn.push_back (dev ());
    return drawn[next++];
  }
  bool populate ()
  {
    for (natural k = 0; k < pop; ++k)
      {
        vector<double> a (n, 0.0), b (n, 0.0);
        for (natural j = 0; j < n; ++j)
          {
            long tries = 0;
            do
              {
                if (++tries > 200000) return false;
                const double z = draw ();
                for (natural i = 0; i < n; ++i)
                  {
                    u[k][i] = a[i] + z * (B[j * n + i] * d[j]);
                    v[k][i] = b[i] + z * B[j * n + i];
                    x[k][i] = xw[i] + u[k][i] * s;
                  }
              }
            while (con.is_violated (&x[k][0], n));
            a = u[k]; b = v[k];
          }
      }
    return true;
  }
  // y: costs to be minimised. Returns false if the ranking is ambiguous.
  bool select (const vector<double> &y)
  {
    for (double t : y) if (t != t) return false;
    vector<natural> o (pop);
    for (natural k = 0; k < pop; ++k) o[k] = k;
    stable_sort (o.begin (), o.end (), [&y] (natural a, natural b) { return y[a] < y[b]; });
    // the best cost is compared with that of any one individual which is not selected
    if (y[o[0]] == y[o[par]] && y[o[0]] != y[o[pop - 1]]) return false;
    ++g;
    underflow = y[o[0]] == y[o[par]];
    if (underflow) return true;
    for (natural r = 0; r < par; ++r) if (y[o[r]] == y[o[r + 1]]) { --g; return false; }
    vector<double> um (n), vm (n);
    for (natural i = 0; i < n; ++i)
      {
        double a = 0, b = 0, c = 0;
        for (natural r = 0; r < par; ++r) { a += w[r] * u[o[r]][i]; b += w[r] * v[o[r]][i]; c += w[r] * x[o[r]][i]; }
        um[i] = a / ws; vm[i] = b / ws; xw[i] = c / ws;
      }
    const double cw = sqrt (wv);
    for (natural i = 0; i < n; ++i) pc[i] = (1 - cc) * pc[i] + sqrt (cc * (2 - cc)) * cw * um[i];
    for (natural j = 0; j < n; ++j)
      for (natural i = 0; i <= j; ++i)
        {
          double z = 0;
          for (natural r = 0; r < par; ++r) z += w[r] * (u[o[r]][i] * u[o[r]][j]);
          double &c = C[j * n + i];
          c = (c + c1 * (pc[i] * pc[j] - c)) + cm * (z / ws - c);
        }
    if (g % upd == 0)
      {
        dec (&C[0], &B[0], &d[0]);
        double t = d[n - 1] / cond - d[0];
        if (t > 0) { repaired = true; for (natural i = 0; i < n; ++i) { C[i * n + i] += t; d[i] += t; } }
        for (natural i = 0; i < n; ++i) d[i] = sqrt (d[i]);
        basis ();
      }
    for (natural i = 0; i < n; ++i) ps[i] = (1 - cs) * ps[i] + sqrt (cs * (2 - cs)) * cw * vm[i];
    double q = 0;
    for (natural i = 0; i < n; ++i) q += ps[i] * ps[i];
    s *= exp (cs / damp * (sqrt (q) / en - 1));
    optimized = true;
    for (natural i = 0; i < n; ++i) optimized = optimized && s * s * C[i * n + i] < (acc * xw[i]) * (acc * xw[i]) + 1 / cond;
    return true;
  }
  void basis ()
  {
    double m = 0;
    for (natural i = 0; i < n; ++i) m = max (m, C[i * n + i]);
    for (natural i = 0; i < n; ++i)
      {
        if (i && !(d[i] >= d[i - 1])) { viol ("decomposition", "eigenvalues not in ascending order"); return; }
        for (natural j = 0; j <= i; ++j)
          {
            double o = 0, c = 0;
            for (natural k = 0; k < n; ++k) { o += B[i * n + k] * B[j * n + k]; c += B[k * n + i] * B[k * n + j] * d[k] * d[k]; }
            if (!(fabs (o - (i == j)) < 1e-9)) { viol ("decomposition", str ("rotation matrix not orthogonal: %g", o)); return; }
            if (!(fabs (c - C[i * n + j]) < 1e-8 * m)) { viol ("decomposition", str ("decomposition of the covariance is wrong: %g instead of %g", c, C[i * n + j])); return; }
          }
      }
  }
  template <class F> void uncertainty (const F &f, vector<double> &z)
  {
    const double zx = f (xw);
    vector<double> h (n, s);
    for (natural j = 0; j < n; ++j)
      {
        double a = 0, b = 0, c = s;
        do
          {
            vector<double> p = xw, q = xw;
            for (natural i = 0; i < n; ++i) { p[i] += c * B[j * n + i] * d[j]; q[i] -= c * B[j * n + i] * d[j]; }
            const double zp = f (p), zq = f (q);
            h[j] = c / sqrt (fabs ((zp + zq) - (zx + zx)));
            if (fabs (0.5 * (zp + zq) - zx) < 0.5) { a = c; c *= 1.618; } else { b = c; c *= 0.618; }
          }
        while ((a == 0 or b == 0) and c >= numeric_limits<double>::min () and c <= numeric_limits<double>::max ());
      }
    double l = 0;
    for (natural j = 0; j < n; ++j) l += log (h[j]);
    z.resize (n);
    for (natural i = 0; i < n; ++i) z[i] = exp (l / n) * sqrt (C[i * n + i]);
  }
};

static bool near (double a, double b, double rel, double abs_) { if (a != a || b != b) return (a != a) == (b != b); if (a == b) return true; return fabs (a - b) <= rel * max (fabs (a), fabs (b)) + abs_; }

template <class T> static void line (const char *k, const T &v) { printf ("%s", k); for (size_t i = 0; i < v.size (); ++i) printf (" %a", v[i]); printf ("\n"); }

int main (int argc, char *argv[])
{
  for (int i = 1; i < argc; ++i) { string s = argv[i]; size_t p = s.find ('='); opt[s.substr (0, p)] = s.substr (p + 1); }
  const natural n = (natural)num ("n", 2), par = (natural)num ("par", 3), pop = (natural)num ("pop", 6), upd = (natural)num ("upd", 1), stop = (natural)num ("stop", 5);
  const double acc = num ("acc", 1e-3), s0 = num ("s", 0.5);
  const uint64_t seed = strtoull (opt["seed"].c_str (), nullptr, 10);
  const bool maximize = num ("max") != 0, free_ = num ("free") != 0;
  Mix m = { (uint64_t)num ("oseed", 1) };
  Objective f;
  f.kind = (int)num ("obj"); f.scale = ldexp (maximize ? -1.0 : 1.0, (int)num ("scale"));
  f.throwkind = (int)num ("throw"); f.throwcall = (long)num ("at"); f.record = true;
  for (natural i = 0; i < n; ++i)
    {
      f.c.push_back (m.in (-1, 1)); f.w.push_back (m.in (0.3, 30));
      f.R.push_back (vector<double> ());
      for (natural j = 0; j < n; ++j) f.R.back ().push_back (m.in (-1, 1));
    }
  vector<double> lo (n), up (n);
  valarray<real> x0 (n), d0 (n);
  const int bk = (int)num ("bounds");
  for (natural i = 0; i < n; ++i)
    {
      double ce = f.c[i], r = m.in (0.2, 2);
      switch (bk)
        {
        case 0: lo[i] = ce - r; up[i] = ce + r * m.in (0.5, 1.5); break;                       // around the optimum
        case 1: lo[i] = ce + 0.3 * r; up[i] = lo[i] + r; break;                                 // optimum outside
        case 2: lo[i] = ce; up[i] = ce + r; break;                                              // optimum on the bound
        case 3: lo[i] = ce; up[i] = ce * (1 + 1e-6 * m.u ()) + (ce < 0 ? -2e-6 * ce : 0); if (lo[i] > up[i]) swap (lo[i], up[i]); break; // narrow
        case 4: lo[i] = ce; up[i] = ce; for (int k = 1 + (int)(m.next () % 4); k; --k) up[i] = nextafter (up[i], 10.0); break;           // a few representable numbers
        case 7: lo[i] = -1e9; up[i] = 1e9; break;                                               // scales far apart
        case 5: lo[i] = i % 2 ? -1e9 : ce - r; up[i] = i % 2 ? ce + r : 1e9; break;             // one-sided
        default: lo[i] = 0; up[i] = m.in (0.5, 2); break;
        }
      x0[i] = bk == 5 ? ce + 0.1 * r : 0.5 * (lo[i] + up[i]);
      d0[i] = bk == 5 ? r * 0.5 : 0.5 * (up[i] - lo[i]);
      if (bk == 7) { x0[i] = ce; d0[i] = pow (10.0, i % 2 ? m.in (-1, 1) : m.in (-10, -7)); }
      if (x0[i] < lo[i]) x0[i] = lo[i];
      if (x0[i] > up[i]) x0[i] = up[i];
    }
  if (free_) for (natural i = 0; i < n; ++i) { lo[i] = -numeric_limits<double>::infinity (); up[i] = numeric_limits<double>::infinity (); }
  const Trace tr = { (natural)num ("trace") };
  // without tracer and bounds the overloads without constraint are called
  const Constraint con (lo, up, (free_ && !tr.m ? 0 : num ("penalty")) * (maximize ? -1.0 : 1.0) * fabs (f.scale));
  auto bounded = [&] () {
    natural bi;
    long first = 0, last = 0; // evaluations before the last trace are no probes of the final parabola search
    for (long i = 0; i < nrec && i < maxrec; ++i) if (recs[i].type == 3) last = i;
    for (long i = 0; i < nrec && i < maxrec; ++i)
      if (recs[i].type == 1 && (first++ < (long)pop || i < last) && con.outside (recs[i].x, n, bi))
        {
          viol ("individual outside bounds", str ("parameter %d is %a, bounds %a to %a", (int)bi, recs[i].x[bi], lo[bi], up[bi]));
          break;
        }
    printf ("calls %ld\n", calls);
  };
  maxrec = (long)(2 * pop * stop + 4 * stop + 20000);
  recs = (Rec *)malloc ((size_t)maxrec * sizeof (Rec));
  memset ((void *)recs, 0, 1);
  try
    {
      const especia::Optimizer optimizer = especia::Optimizer::Builder ().with_problem_dimension (n).with_parent_number (par).with_population_size (pop).with_covariance_update_modulus (upd)
          .with_accuracy_goal (acc).with_stop_generation (stop).with_random_seed (seed).build ();
      const especia::Optimizer::Result r = maximize ? (free_ && !tr.m ? optimizer.maximize (f, x0, d0, s0) : optimizer.maximize (f, x0, d0, s0, con, tr))
                                                    : (free_ && !tr.m ? optimizer.minimize (f, x0, d0, s0) : optimizer.minimize (f, x0, d0, s0, con, tr));
      const long nr = nrec;
      const bool full = nrec >= maxrec;
      f.record = false;
      vector<double> x (begin (r.get_parameter_values ()), end (r.get_parameter_values ()));
      line ("x", x);
      line ("z", r.get_parameter_uncertainties ());
      line ("d", r.get_local_step_sizes ());
      line ("B", r.get_rotation_matrix ());
      line ("C", r.get_covariance_matrix ());
      line ("ps", r.get_step_size_cumulation_path ());
      line ("pc", r.get_distribution_cumulation_path ());
      printf ("s %a\ny %a\ng %lu\nflags %d %d\n", r.get_global_step_size (), (maximize ? -1.0 : 1.0) * r.get_fitness (), (unsigned long)r.get_generation_number (), r.is_optimized (), r.is_underflow ());
      for (long i = 0; i < nr; ++i)
        if (recs[i].type == 3) printf ("trace %ld %a %a %a\n", recs[i].call, (maximize ? -1.0 : 1.0) * recs[i].y, recs[i].a, recs[i].b);
      // bounds (P05): the individuals of the generations and the result
      natural bi;
      if (con.outside (&x[0], n, bi)) viol ("result outside bounds", str ("parameter %d is %a, bounds %a to %a", (int)bi, x[bi], lo[bi], up[bi]));
      // refinement (P04)
      Ref ref (n, par, pop, upd, acc, stop, seed, x0, d0, s0, con);
      vector<Rec *> begins;
      map<long, long> endpos, beginpos;
      for (long i = 0; i < nr; ++i)
        {
          if (recs[i].type == 1) { begins.push_back (&recs[i]); beginpos[recs[i].call] = i; }
          if (recs[i].type == 2) endpos[recs[i].call] = i;
        }
      size_t at = 0;
      bool blind = bk == 4; // individuals are not distinguishable, equal step sizes make the basis arbitrary
      if (blind)
        for (size_t q = 0; q < begins.size () && q < (size_t)r.get_generation_number () * pop; ++q)
          if (con.outside (begins[q]->x, n, bi)) { const Rec *b = begins[q]; viol ("individual outside bounds", str ("parameter %d is %a, bounds %a to %a", (int)bi, b->x[bi], lo[bi], up[bi])); break; }
      const natural gens = r.get_generation_number ();
      natural gi = 0;
      long individuals = 0;
      struct Row { vector<double> y; double a, b; };
      map<natural, Row> rows_;
      while (gi < stop && !full && !blind)
        {
          ref.drawn.clear (); ref.next = 0;
          if (!ref.populate ()) { blind = true; break; }
          // the next population_size evaluations are this generation's individuals, each exactly once
          if (at + pop > begins.size ()) { viol ("evaluations missing", str ("generation %lu: %ld evaluations left, %lu individuals", (unsigned long)gi + 1, (long)(begins.size () - at), (unsigned long)pop)); blind = true; break; }
          vector<double> width (n, 0.0), y (pop), yr (pop);
          for (natural k = 0; k < pop; ++k) for (natural i = 0; i < n; ++i) width[i] = max (width[i], fabs (ref.x[k][i] - ref.xw[i]));
          for (natural i = 0; i < n; ++i) if (!(width[i] > 1e-10 * fabs (ref.xw[i]))) blind = true;
          if (blind) break;
          // the direction of an eigenvector is arbitrary and may turn by rounding
          auto follows = [&] () {
            vector<bool> taken (pop, false);
            for (natural e = 0; e < pop; ++e)
              {
                bool found = false;
                for (natural k = 0; k < pop && !found; ++k)
                  if (!taken[k])
                    {
                      bool same = true;
                      for (natural i = 0; i < n && same; ++i) same = near (begins[at + e]->x[i], ref.x[k][i], 4e-15, 1e-6 * width[i]);
                      if (same) found = taken[k] = true;
                    }
                if (!found) return false;
              }
            return true;
          };
          if (!follows ())
            {
              auto turn = [&] (natural j) { for (natural i = 0; i < n; ++i) ref.B[j * n + i] = -ref.B[j * n + i]; };
              auto again = [&] () { ref.next = 0; return ref.populate () && follows (); };
              bool found = false;
              // from the components of the first individual along the eigenvectors, which an evaluated one must have but for the signs
              auto along = [&] (const double *xx, natural j) { double q = 0; for (natural i = 0; i < n; ++i) q += ref.B[j * n + i] * (xx[i] - ref.xw[i]); return q / (ref.d[j] * ref.s); };
              for (natural e = 0; e < pop && !found; ++e)
                {
                  vector<natural> other;
                  bool same = true;
                  for (natural j = 0; j < n && same; ++j)
                    {
                      const double p = along (begins[at + e]->x, j), q = along (&ref.x[0][0], j);
                      if (fabs (p - q) <= 1e-5 * fabs (q) + 1e-8) continue;
                      if (fabs (p + q) <= 1e-5 * fabs (q) + 1e-8) other.push_back (j);
                      else same = false;
                    }
                  if (!same) continue;
                  for (natural j : other) turn (j);
                  found = again ();
                  if (!found) { for (natural j : other) turn (j); again (); }
                }
              // by trial where individuals were drawn again because of the bounds
              if (n <= 12)
                for (unsigned long t = 1; t < (1ul << n) && !found; ++t)
                  {
                    for (natural j = 0; j < n; ++j) if ((t ^ (t - 1)) >> j & 1) turn (j);
                    found = again ();
                    if (t + 1 == 1ul << n && !found) for (natural j = 0; j < n; ++j) turn (j);
                  }
              if (!found) again ();
            }
          vector<int> used (pop, -1);
          long lastend = -1;
          bool bad = false;
          for (natural e = 0; e < pop && !bad; ++e)
            {
              const Rec *b = begins[at + e];
              if (con.outside (b->x, n, bi)) viol ("individual outside bounds", str ("generation %lu: parameter %d is %a, bounds %a to %a", (unsigned long)gi + 1, (int)bi, b->x[bi], lo[bi], up[bi]));
              int hit = -1;
              for (natural k = 0; k < pop && hit < 0; ++k)
                {
                  bool same = used[k] < 0;
                  for (natural i = 0; i < n && same; ++i) same = near (b->x[i], ref.x[k][i], 4e-15, 1e-6 * width[i]);
                  if (same) hit = (int)k;
                }
              if (hit < 0)
                {
                  bool twice = false;
                  for (natural e2 = 0; e2 < e; ++e2) twice |= memcmp (begins[at + e2]->x, b->x, n * sizeof (double)) == 0;
                  viol (twice ? "individual evaluated twice" : "individual differs from the sequential strategy", str ("generation %lu, evaluation %d", (unsigned long)gi + 1, (int)e));
                  bad = true;
                }
              else
                {
                  used[hit] = (int)e;
                  if (!endpos.count (b->call)) { viol ("evaluation not finished", str ("generation %lu", (unsigned long)gi + 1)); bad = true; }
                  else { y[hit] = recs[endpos[b->call]].y + (maximize ? con.cost (b->x, n) : con.cost (b->x, n)); lastend = max (lastend, endpos[b->call]); }
                }
            }
          individuals += (long)pop;
          if (bad) { blind = true; break; }
          at += pop;
          if (at < begins.size () && beginpos[begins[at]->call] < lastend) viol ("generation not awaited", str ("generation %lu", (unsigned long)gi + 1));
          ++gi;
          for (natural k = 0; k < pop; ++k) yr[k] = maximize ? -y[k] : y[k];
          if (!ref.select (yr)) { blind = true; break; }
          if (ref.underflow) break;
          if (ref.repaired && gi < stop && !ref.optimized) { blind = true; break; } // the repaired state is known to a percent only
          // further evaluations of the mean (trace, final) may follow
          Row &row = rows_[gi];
          row.a = ref.s * ref.d[0];
          row.b = ref.s * ref.d[n - 1];
          while (at < begins.size () && at + 0 < begins.size ())
            {
              bool mean = true;
              for (natural i = 0; i < n && mean; ++i) mean = near (begins[at]->x[i], ref.xw[i], 4e-15, 1e-6 * width[i]);
              if (!mean) break;
              if (endpos.count (begins[at]->call)) row.y.push_back (recs[endpos[begins[at]->call]].y + con.cost (begins[at]->x, n));
              ++at;
            }
          if (ref.optimized) break;
        }
      printf ("ref %s %lu %ld\n", blind ? "blind" : "full", (unsigned long)gi, individuals);
      // whatever happened: an updated state is well-conditioned, and step sizes and covariance belong together
      if (gens > (r.is_underflow () ? upd : upd - 1) && r.get_fitness () == r.get_fitness ())
        {
          const auto d = r.get_local_step_sizes ();
          const auto C = r.get_covariance_matrix ();
          double cmin = C[0], tr_ = 0;
          for (natural i = 0; i < n; ++i) { cmin = min (cmin, C[i * n + i]); tr_ += C[i * n + i]; }
          if (!(d[0] * d[0] >= 0.9 * d[n - 1] * d[n - 1] / ref.cond)) viol ("ill-conditioned covariance", str ("step sizes %g to %g", d[0], d[n - 1]));
          if (upd == 1 && !(cmin >= 0.9 * d[0] * d[0] && d[n - 1] * d[n - 1] <= 1.1 * tr_)) viol ("step sizes and covariance disagree", str ("smallest variance %g, squared step size %g", cmin, d[0] * d[0]));
          printf ("repaired %d\n", ref.repaired);
        }
      // the status and the cost belong to the state returned
      {
        const double yy = f (&x[0], n) + con.cost (&x[0], n);
        if (!near (r.get_fitness (), yy, 1e-12, 0)) viol ("final fitness", str ("%.17g instead of %.17g", r.get_fitness (), yy));
        bool below = true, above = true;
        for (natural i = 0; i < n; ++i)
          {
            const double t = r.get_global_step_size () * r.get_global_step_size () * r.get_covariance_matrix ()[i * n + i], u = (acc * x[i]) * (acc * x[i]) + 1 / ref.cond;
            below = below && t < u * (1 + 1e-9);
            above = above && t < u * (1 - 1e-9);
          }
        if (r.is_optimized () && !below) viol ("status", "optimized, but a parameter is not known to the accuracy goal");
        if (!r.is_optimized () && !r.is_underflow () && gens > 0 && above) viol ("status", "not optimized, but all parameters are known to the accuracy goal");
        if (!r.is_optimized () && !r.is_underflow () && gens != stop) viol ("status", str ("stopped at %lu instead of %lu", (unsigned long)gens, (unsigned long)stop));
      }
      const double loose = ref.repaired ? 0.1 : 1e-5;
      if (!blind && !full)
        {
          if (gens != ref.g) viol ("generation number", str ("%lu instead of %lu", (unsigned long)gens, (unsigned long)ref.g));
          if (r.is_optimized () != ref.optimized || r.is_underflow () != ref.underflow) viol ("status", str ("optimized %d underflow %d instead of %d %d", r.is_optimized (), r.is_underflow (), ref.optimized, ref.underflow));
          for (natural i = 0; i < n; ++i)
            {
              const double sc = ref.s * sqrt (fabs (ref.C[i * n + i]));
              if (!near (x[i], ref.xw[i], 1e-12, 1e-5 * sc)) viol ("final parameter values", str ("parameter %d is %.17g instead of %.17g", (int)i, x[i], ref.xw[i]));
              if (!near (r.get_local_step_sizes ()[i], ref.d[i], loose, 1e-12 * ref.d[n - 1])) viol ("final step sizes", str ("%d: %.17g instead of %.17g", (int)i, r.get_local_step_sizes ()[i], ref.d[i]));
              if (!near (r.get_step_size_cumulation_path ()[i], ref.ps[i], 1e-5, 1e-6)) viol ("final step size path", str ("%d: %.17g instead of %.17g", (int)i, r.get_step_size_cumulation_path ()[i], ref.ps[i]));
              for (natural j = 0; j <= i; ++j)
                if (!near (r.get_covariance_matrix ()[i * n + j], ref.C[i * n + j], loose, (ref.repaired ? 0.1 : 1e-6) * sqrt (fabs (ref.C[i * n + i] * ref.C[j * n + j])))) viol ("final covariance", str ("%d,%d: %.17g instead of %.17g", (int)i, (int)j, r.get_covariance_matrix ()[i * n + j], ref.C[i * n + j]));
            }
          if (!near (r.get_global_step_size (), ref.s, 1e-5, 0)) viol ("final global step size", str ("%.17g instead of %.17g", r.get_global_step_size (), ref.s));
          if (ref.optimized)
            {
              vector<double> z;
              ref.xw = x; ref.s = r.get_global_step_size ();
              for (natural i = 0; i < n; ++i) ref.d[i] = r.get_local_step_sizes ()[i];
              for (natural i = 0; i < n * n; ++i) { ref.B[i] = r.get_rotation_matrix ()[i]; ref.C[i] = r.get_covariance_matrix ()[i]; }
              ref.uncertainty ([&] (const vector<double> &p) { return f (&p[0], n) + con.cost (&p[0], n); }, z);
              for (natural i = 0; i < n; ++i)
                if (!near (r.get_parameter_uncertainties ()[i], z[i], 1e-6, 0)) { viol ("uncertainty", str ("parameter %d: %.17g instead of %.17g", (int)i, r.get_parameter_uncertainties ()[i], z[i])); break; }
            }
          else
            for (natural i = 0; i < n; ++i) if (r.get_parameter_uncertainties ()[i] != 0) { viol ("uncertainty", "uncertainty without optimum"); break; }
          // the trace
          natural rows = 0, want = 0;
          for (long i = 0; i < nr; ++i) if (recs[i].type == 3) ++rows;
          if (tr.m) for (natural q = 1; q <= gens; ++q) if ((q % tr.m == 0 && !(ref.underflow && q == gens)) || (q == gens && ref.optimized)) ++want;
          for (long i = 0; i < nr && rows == want; ++i)
            if (recs[i].type == 3)
              {
                const Row &row = rows_[(natural)recs[i].call];
                bool ok = false;
                for (double v : row.y) ok |= recs[i].y == v || (v != v && recs[i].y != recs[i].y);
                if (!ok) { viol ("trace row", str ("generation %ld: %.17g is not the value of the mean", recs[i].call, recs[i].y)); break; }
                if (!near (recs[i].a, row.a, loose, 1e-12 * row.b) || !near (recs[i].b, row.b, loose, 0)) { viol ("trace row", str ("generation %ld: steps %.17g %.17g instead of %.17g %.17g", recs[i].call, recs[i].a, recs[i].b, row.a, row.b)); break; }
              }
          if (tr.m && rows != want) viol ("trace rows", str ("%d rows instead of %d", (int)rows, (int)want));
        }
      return 0;
    }
  catch (logic_error &e) { cerr << e.what () << endl; bounded (); return 8; }
  catch (runtime_error &e) { cerr << e.what () << endl; bounded (); return 16; }
  catch (exception &e) { cerr << e.what () << endl; bounded (); return 64; }
  catch (int e) { cerr << e << endl; bounded (); return 64; }
}
