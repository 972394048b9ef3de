// Force-included: Eigen's own precondition checks become simulator
// violations although the library is built as shipped (NDEBUG).
#ifndef SIM_ASSERT_OVERRIDE_HPP
#define SIM_ASSERT_OVERRIDE_HPP
#ifndef NDEBUG
#define NDEBUG
#endif
extern "C" [[noreturn]] void sim_assert_fail(const char* expr,
                                             const char* file, int line);
#define eigen_assert(x) \
  do {                  \
    if (!(x)) ::sim_assert_fail(#x, __FILE__, __LINE__); \
  } while (false)
#endif
