#include "ops.h"
static void dispatch(const sim::Options &o)
{
  const std::string op = o.s("op");
  const int dim = o.i("dim", 2);
#define OP(name)                                 \
  if (op == #name) {                             \
    if (dim == 1)                                \
      return sim::op_##name<1>(o);               \
    if (dim == 2)                                \
      return sim::op_##name<2>(o);               \
    return sim::op_##name<3>(o);                 \
  }
#ifdef SIM_MARCH
  OP(march)
#endif
#ifdef SIM_REF
  OP(refstep)
  OP(scheme)
  OP(order)
#endif
#ifdef SIM_FLOW
  OP(equilibrium)
  OP(boundary)
  OP(dump)
  OP(parabolic)
#endif
#ifdef SIM_MISC
  OP(initial)


#endif
#ifdef SIM_ALG
  OP(limiter)
#endif
#ifdef SIM_THERMO
  OP(riemann)
  OP(thermo)
#endif
  mon::fail("driver/unknown-op", "%s", op.c_str());
}
SIM_MAIN(dispatch)
