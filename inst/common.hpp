// Instantiations that make the compiler emit the real library code.  User code
// is represented by undefined external functions (cb_*): arbitrary code.
#include <cstddef>
#include <typeinfo>
#define PROBE( cls, name, member ) \
  extern "C" const unsigned long off_##cls##__##name = __builtin_offsetof( cls, member );
#define PROBE_SIZE( cls ) extern "C" const unsigned long size_##cls = sizeof( cls );
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
#include "alloc.hpp"
