// An analysis program whose model records every evaluation: the real Runner on a model that
// notes the beginning and end of each evaluation with the number of bytes delivered to standard output by then.
#include <cstring>
#include <exception>
#include <iostream>
#include <limits>
#include <new>
#include <stdexcept>
#include <system_error>
#include <vector>
#include "exitcodes.h"
#include "model.h"
#include "profiles.h"
#include "runner.h"

extern "C" void sim_record (const void *, size_t);
extern "C" unsigned long sim_fiber ();
extern "C" unsigned long sim_delivered (int);
extern "C" long sim_fault (const char *, unsigned long);

static unsigned long rec_calls;
__attribute__ ((no_sanitize_thread)) static unsigned long
rec_call ()
{
  return ++rec_calls;
}

// n, type (1 begin, 2 end), fiber, call, delivered, value, x...
static void
rec_note (int type, unsigned long call, const double *x, size_t n, double y)
{
  double b[6 + 64];
  b[0] = n; b[1] = type; b[2] = sim_fiber (); b[3] = call; b[4] = sim_delivered (1); b[5] = y;
  for (size_t i = 0; i < n && i < 64; ++i)
    b[6 + i] = x[i];
  sim_record (b, (6 + (n < 64 ? n : 64)) * sizeof (double));
}

template <class F> class Recorded : public especia::Model<F>
{
public:
  static Recorded
  parse (std::istream &is, std::ostream &os)
  {
    return Recorded (especia::Model<F>::parse (is, os));
  }

  especia::real
  operator() (const especia::real x[], especia::natural n) const
  {
    const unsigned long call = rec_call ();
    rec_note (1, call, x, n, 0);
    switch (sim_fault ("eval", call))
      {
      case 0: break;
      case 1: throw std::logic_error ("injected logic error");
      case 2: throw std::runtime_error ("injected runtime error");
      case 3: throw std::bad_alloc ();
      case 4: throw std::exception ();
      case 5: return std::numeric_limits<double>::quiet_NaN ();
      case 11: throw std::range_error ("injected range error");
      case 12: throw std::out_of_range ("injected index error");
      case 13: throw std::system_error (11, std::generic_category (), "injected system error");
      case 14: throw std::bad_exception ();
      default: return std::numeric_limits<double>::infinity ();
      }
    const especia::real y = especia::Model<F>::operator() (x, n);
    rec_note (2, call, x, n, y);
    return y;
  }

private:
  explicit Recorded (especia::Model<F> &&m) : especia::Model<F> (std::move (m)) {}
};

template <class F>
int
rec_main (int argc, char *argv[])
{
  using namespace std;
  try
    {
      return especia::Runner (argc, argv).run<Recorded<F> > ();
    }
  catch (logic_error &e)
    {
      cerr << e.what () << endl;
      return especia::Exit_Codes::logic_error;
    }
  catch (runtime_error &e)
    {
      cerr << e.what () << endl;
      return especia::Exit_Codes::runtime_error;
    }
  catch (exception &e)
    {
      cerr << e.what () << endl;
      return especia::Exit_Codes::unspecific_exception;
    }
}
