// Random-source seam: pre-included into every library translation unit. The library's real
// wrapper code (rnorm/runif, boost distributions) runs unchanged; only the 32-bit word
// generator underneath (boost::mt19937) is replaced by the simulator's word stream.
#if defined(__cplusplus) && !defined(SIM_RNG_SHIM)
#define SIM_RNG_SHIM
#include <cstdint>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_real.hpp>
extern "C" uint32_t sim_rng_word();
namespace simrng {
struct engine {
  typedef uint32_t result_type;
  static constexpr bool has_fixed_range = false;
  engine() {}
  explicit engine(uint32_t) {}
  template <class S> void seed(S&) {}
  void seed() {}
  void seed(uint32_t) {}
  void discard(unsigned long long n) { while (n--) sim_rng_word(); }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return sim_rng_word(); }
};
}
namespace boost { namespace random { typedef simrng::engine sim_engine; } using random::sim_engine; }
#define mt19937 sim_engine
#endif
