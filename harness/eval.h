// Evaluates shared model objects from several threads at the same time, or one of them alone.
// usage: eval seed points threads only    (only < 0: all points concurrently)
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <thread>
#include <vector>
#include "model.h"
#include "profiles.h"
#include "section.h"

using especia::natural;
using especia::real;

struct Mix
{
  uint64_t s;
  uint64_t next () { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  double u () { return (double)(next () >> 11) / 9007199254740992.0; }
  double in (double a, double b) { return a + (b - a) * u (); }
};

template <class F> struct Eval
{
  std::vector<std::string> value; // of each point
};

template <class F>
int
eval_main (int argc, char *argv[])
{
  using namespace std;
  const uint64_t seed = strtoull (argv[1], nullptr, 10);
  const int P = atoi (argv[2]), T = atoi (argv[3]), only = atoi (argv[4]);
  stringstream sink;
  typedef especia::Model<F> M;
  try
    {
      M model = M::parse (cin, sink);
      const natural n = model.get_parameter_count ();
      const valarray<real> x0 = model.get_initial_parameter_values (), d0 = model.get_initial_local_step_sizes ();
      vector<especia::Section> sections;
      for (int i = 0; i < 8; ++i)
        {
          ostringstream name;
          name << "data/s" << i << ".dat";
          ifstream ifs (name.str ().c_str ());
          especia::Section s;
          if (ifs and s.get (ifs))
            sections.push_back (s);
        }
      // the points
      vector<vector<real> > xs ((size_t)P);
      vector<natural> lines ((size_t)P), deg ((size_t)P);
      vector<real> res ((size_t)P), at ((size_t)P);
      vector<shared_ptr<especia::Superposition<F> > > sup ((size_t)P);
      vector<shared_ptr<F> > prof ((size_t)P);
      const natural np = F::parameter_count ();
      for (int k = 0; k < P; ++k)
        {
          Mix m = { seed * 1000003u + (uint64_t)(k % (P > 3 ? P - 2 : P)) }; // some points are the same
          if (k % 4 == 0)
            for (natural i = 0; i < n; ++i)
              xs[k].push_back (x0[i] + d0[i] * m.in (-1, 1));
          else
            {
              const especia::Section &s = sections[m.next () % sections.size ()];
              lines[k] = 1 + m.next () % 3;
              deg[k] = m.next () % 4;
              res[k] = m.in (8, 120);
              at[k] = s.center () + s.width () * m.in (-0.5, 0.5);
              for (natural l = 0; l < lines[k]; ++l)
                {
                  real q[] = { s.center () * (1 + m.in (-0.2, 0.2) * s.width () / s.center ()), m.in (0.05, 0.4), 0.0, m.in (-3, 3), m.in (1, 8), m.in (11.5, 13.5), np == 7 ? m.in (1e7, 1e9) : m.in (-1500, 1500), m.in (-20, 20) };
                  xs[k].insert (xs[k].end (), q, q + np);
                }
              if (k % 4 == 2)
                sup[k] = make_shared<especia::Superposition<F> > (lines[k], &xs[k][0]);
              if (k % 4 == 3)
                prof[k] = make_shared<F> (&xs[k][0]);
            }
        }
      auto eval = [&] (int k) -> string {
        real y = 0;
        try
          {
            Mix m = { seed * 1000003u + (uint64_t)(k % (P > 3 ? P - 2 : P)) };
            switch (k % 4)
              {
              case 0:
                y = model (&xs[k][0], n);
                break;
              case 1:
                {
                  const especia::Section &s = sections[m.next () % sections.size ()];
                  y = s.cost (especia::Superposition<F> (lines[k], &xs[k][0]), res[k], deg[k]);
                  break;
                }
              case 2:
                for (int j = -3; j <= 3; ++j)
                  y = 0.7 * y + (*sup[k]) (at[k] * (1 + 1e-6 * j));
                break;
              default:
                for (int j = -3; j <= 3; ++j)
                  y = 0.7 * y + (*prof[k]) (at[k] * (1 + 1e-6 * j)) + prof[k]->center ();
              }
          }
        catch (exception &e)
          {
            return string ("throws ") + e.what ();
          }
        char b[40];
        snprintf (b, sizeof b, "%a", y);
        return b;
      };
      if (only >= 0)
        {
          printf ("%d %s\n", only, eval (only).c_str ());
          return 0;
        }
      stringstream before, after;
      {
        const valarray<real> u (0.0, n);
        model.set (&x0[0], &u[0]);
        model.put (before);
      }
      vector<vector<string> > got ((size_t)T, vector<string> ((size_t)P));
      vector<thread> ts;
      for (int t = 0; t < T; ++t)
        ts.push_back (thread ([&, t] () {
          for (int i = 0; i < P; ++i)
            {
              const int k = t % 2 ? (P - 1 - i + t) % P : (i + t * (P / 3)) % P;
              got[t][k] = eval (k);
            }
        }));
      for (thread &t : ts)
        t.join ();
      model.put (after);
      for (int t = 0; t < T; ++t)
        for (int k = 0; k < P; ++k)
          printf ("%d %s\n", k, got[t][k].c_str ());
      printf ("document %s\n", before.str () == after.str () ? "same" : "changed");
      return 0;
    }
  catch (exception &e)
    {
      cerr << e.what () << endl;
      return 3;
    }
}
