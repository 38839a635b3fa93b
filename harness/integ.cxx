// Runs Especia's integrator on a generated integrand and compares with the true integral and with a plain
// sequential reference of adaptive bisection that shares no integrand values between parts.
// usage: integ key=value...
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <thread>
#include <vector>
#include "base.h"
#include "integrator.h"
#include "profiles.h"

#define RAW __attribute__ ((no_sanitize_thread))
using especia::Integrator;
using especia::natural;
using especia::real;
using namespace std;

static map<string, string> opt;
static double num (const char *k, double d = 0) { auto i = opt.find (k); return i == opt.end () ? d : strtod (i->second.c_str (), nullptr); }
static const double pi = 3.14159265358979323846;
static long calls;
static double lo, hi, top;
static bool counting;

RAW static void note (double x, double y)
{
  if (!counting) return;
  calls++;
  if (!(x >= lo)) lo = x;
  if (!(x <= hi)) hi = x;
  if (fabs (y) > top) top = fabs (y);
}

struct Function
{
  int kind;
  double c, w, k, s;
  vector<double> p;
  double value (double x) const
  {
    double y = 0;
    switch (kind)
      {
      case 0: for (size_t i = p.size (); i-- > 0;) y = y * (x - c) / w + p[i]; return y;
      case 1: return s * exp (k * (x - c));
      case 2: return s * cos (k * x + c);
      case 3: return s * exp (-0.5 * (x - c) * (x - c) / (w * w));
      case 4: return s * w * w / ((x - c) * (x - c) + w * w);
      case 5: return s * pow (fabs (x), k) * exp (-w * fabs (x));
      case 6: return s * (1 - exp (-k * exp (-(x - c) * (x - c) / (w * w))));
      case 7: return s * sqrt (fabs (x - c));
      case 8: return x < c ? 0 : s;
      case 9: return s * fabs (x - c);
      case 10: return s / max (1e-3 * w, fabs (x - c));
      case 11: return x > c ? numeric_limits<double>::quiet_NaN () : s;
      case 12: return x > c ? numeric_limits<double>::infinity () : s;
      case 13: return s * sin (30 / (0.1 + fabs (x - c) / w));
      case 14: return s;
      default: return s * 1e300 * (x - c);
      }
  }
  double operator() (double x) const { const double y = value (x); note (x, y); return y; }
  // the true integral over an interval, if known
  double truth (double a, double b) const
  {
    double y = 0;
    switch (kind)
      {
      case 0: for (size_t i = 0; i < p.size (); ++i) y += p[i] * w / (i + 1.0) * (pow ((b - c) / w, i + 1.0) - pow ((a - c) / w, i + 1.0)); return y;
      case 1: return s / k * exp (k * (a - c)) * expm1 (k * (b - a));
      case 2: return s / k * 2 * cos (k * 0.5 * (a + b) + c) * sin (0.5 * k * (b - a));
      case 3: return s * w * sqrt (pi / 2) * (erf ((b - c) / (w * sqrt (2.0))) - erf ((a - c) / (w * sqrt (2.0))));
      case 4: return s * w * (atan ((b - c) / w) - atan ((a - c) / w));
      case 6: // Simpson's rule, fine
        {
          const long n = 20000;
          const double h = (b - a) / n;
          long double t = 0;
          for (long i = 0; i <= n; ++i) t += (i == 0 || i == n ? 1.0 : i & 1 ? 4.0 : 2.0) * value (a + i * h);
          return (double)(t * h / 3);
        }
      case 14: return s * (b - a);
      default: return numeric_limits<double>::quiet_NaN ();
      }
  }
  double truth_half () const // from zero to infinity
  {
    switch (kind)
      {
      case 5: return s * tgamma (k + 1) / pow (w, k + 1);
      case 3: return s * w * sqrt (pi / 2) * erfc (-c / (w * sqrt (2.0)));
      case 6: return truth (0, fabs (c) + 12 * w);
      default: return numeric_limits<double>::quiet_NaN ();
      }
  }
};

typedef Integrator<real>::Formula Formula;
typedef Integrator<real> I;

struct Ref { double value, error; int vague; long parts; };

template <class F> static Ref reference (const F &f, double a, double b, Formula p, Formula q, double goal, long iter, double &scale)
{
  struct P { double a, b, v, e; };
  vector<P> ps;
  auto make = [&] (double a, double b) {
    const double v = I (p, q).integrate (f, a, b, 0.0, 0), u = I (q, p).integrate (f, a, b, 0.0, 0);
    ps.push_back ({ a, b, v, fabs (v - u) });
  };
  Ref r = { 0, 0, 0, 1 };
  make (a, b);
  for (long i = 0; ; ++i)
    {
      r.value = r.error = 0;
      for (auto &x : ps) r.value += x.v, r.error += x.e;
      const double tiny = 1e-12 * scale;
      if (fabs (r.error - goal) <= 1e-6 * goal + tiny) r.vague |= 1;
      if (i == iter || r.error < goal) break;
      auto m = max_element (ps.begin (), ps.end (), [] (const P &x, const P &y) { return x.e < y.e; });
      for (auto &x : ps) if (&x != &*m && !(x.e < m->e * (1 - 1e-6) - tiny)) r.vague |= m->e <= tiny ? 3 : 1; // bisects noise, anything may follow
      const P t = *m;
      ps.erase (m);
      make (t.a, 0.5 * (t.a + t.b));
      make (0.5 * (t.a + t.b), t.b);
      r.parts++;
    }
  return r;
}

int main (int argc, char *argv[])
{
  for (int i = 1; i < argc; ++i)
    {
      const string s = argv[i];
      opt[s.substr (0, s.find ('='))] = s.substr (s.find ('=') + 1);
    }
  const Formula p = Formula ((int)num ("p", 1)), q = Formula ((int)num ("q", 2));
  const string mode = opt["mode"];
  const double goal = num ("goal", 1e-6), a = num ("a"), b = num ("b", 1);
  const long iter = (long)num ("iter", 100), threads = (long)num ("threads", 0);
  Function f = { (int)num ("fn"), num ("c"), num ("w", 1), num ("k", 1), num ("s", 1), {} };
  for (int i = 0; opt.count ("p" + to_string (i)); ++i) f.p.push_back (num (("p" + to_string (i)).c_str ()));

  const I integrator (p, q);
  auto value = [&] () -> double {
    if (mode == "conv")
      {
        Function g = f, h = f;
        h.c = 0, h.w = num ("w2", 1), h.s = 1 / (h.w * sqrt (2 * pi)), h.kind = 3;
        // the profile is a constant optical depth, or a step in slope
        return especia::Convolutor<I> (integrator).convolute ([&g] (real x) -> real { return -log (g (x)); }, h, num ("x"));
      }
    if (mode == "pos") return iter < 0 ? integrator.integrate_positive_infinite (f) : integrator.integrate_positive_infinite (f, goal, iter);
    if (mode == "neg") return iter < 0 ? integrator.integrate_negative_infinite (f) : integrator.integrate_negative_infinite (f, goal, iter);
    if (mode == "inf") return iter < 0 ? integrator.integrate_infinite (f) : integrator.integrate_infinite (f, goal, iter);
    return iter < 0 ? integrator.integrate (f, a, b) : integrator.integrate (f, a, b, goal, iter);
  };
  vector<double> vs (max (1L, threads));
  counting = true;
  lo = numeric_limits<double>::infinity (), hi = -lo;
  if (threads)
    {
      vector<thread> ts;
      for (long i = 0; i < threads; ++i) ts.emplace_back ([&vs, &value, i] { vs[i] = value (); });
      for (auto &t : ts) t.join ();
    }
  else
    vs[0] = value ();
  counting = false;
  for (double v : vs) printf ("value %a\n", v);
  printf ("calls %ld %.17g %.17g %a\n", calls, lo, hi, top);

  const double g = iter < 0 ? 1e-6 : goal;
  const long m = iter < 0 ? 100 : iter;
  double truth = numeric_limits<double>::quiet_NaN (), scale = max (fabs (f.s), top);
  Ref r = { 0, 0, 0, 0 };
  auto half = [&] (int sign) {
    scale = max (fabs (f.s), top);
    Function h = f;
    Ref t = reference ([&h, sign] (real u) -> real { return u > 0.0 ? h (sign * -log (u)) / u : 0.0; }, 0.0, 1.0, p, q, g, m, scale);
    r.value += t.value, r.error += t.error, r.vague |= t.vague, r.parts += t.parts;
    if (sign < 0) h.c = -h.c;
    return h.truth_half ();
  };
  if (!num ("ref", 1)) return 0;
  if (mode == "conv")
    {
      const double w = hypot (f.w, num ("w2", 1)), x = num ("x") - f.c;
      truth = f.s * f.w / w * exp (-0.5 * x * x / (w * w));
    }
  else if (mode == "pos") truth = half (1);
  else if (mode == "neg") truth = half (-1);
  else if (mode == "inf") truth = half (1), truth += half (-1);
  else
    {
      scale = fabs (b - a) * top;
      r = reference (f, a, b, p, q, g, m, scale);
      truth = f.truth (a, b);
    }
  printf ("scale %a\ntruth %a\nref %a %a %d %ld\n", scale, truth, r.value, r.error, r.vague, r.parts);
  return 0;
}
