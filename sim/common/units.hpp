// Model units: anything of the library with calc/calcDiff on a data object,
// behind one type-erased interface, made deterministically from a seed.
#ifndef SIM_UNITS_HPP
#define SIM_UNITS_HPP
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "common/zoo.hpp"
namespace sim {
typedef std::vector<std::pair<const char*, MatrixXd>> Outs;
struct Point {
  VectorXd x, u;
  double t = 0;
  uint64_t seed = 0;
};
// a model under test; datas are type-erased
extern bool g_copy_ctor;  // copies of LQR models by their copy constructor
struct Unit {
  virtual ~Unit() {}
  virtual std::string name() = 0;
  virtual std::shared_ptr<void> make() = 0;
  virtual void calc(void* d, const Point& p, bool term) = 0;
  virtual void diff(void* d, const Point& p, bool term) = 0;
  virtual Outs outs(void* d, bool term, bool diffed) = 0;
  // everything a data that was never evaluated shows
  virtual Outs fresh_outs(void* d) { return outs(d, false, true); }
  // one parameter change; its name, "" if there is none
  virtual std::string mutate(Rng&) { return ""; }
  virtual bool has_term() { return true; }
  virtual bool has_extra() { return false; }
  virtual Outs extra(void*, const Point&) { return {}; }
  // the model's parameters and sizes as it reports them
  virtual Outs report() { return {}; }
  virtual StatePtr state() { return nullptr; }
#ifdef SIM_CAST
  // the same model cast to float and back
  virtual std::unique_ptr<Unit> recast() = 0;
  // a copy made by the cast to the same type
  virtual std::unique_ptr<Unit> copy() = 0;
  virtual std::string mutate_more(Rng&) { return ""; }
#endif
  Eigen::Index nx = 0, nu = 0;
  bool so2 = false;
  bool manager = false;  // may contain a constraint manager
};
std::string differ(const Outs& a, const Outs& b);
Point gen_point(Rng& r, const Unit& m, bool wild);
// det: without units that draw from the C library's random numbers
std::unique_ptr<Unit> make_unit(Rng& r, bool det = false);
#ifdef SIM_CAST
std::unique_ptr<Unit> make_problem_unit(Rng& r);
#endif
}  // namespace sim
#endif
