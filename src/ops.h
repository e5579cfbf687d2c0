#pragma once
#include "sim.h"
namespace sim
{
  template <int dim> void op_march(const Options &o);
  template <int dim> void op_refstep(const Options &o);
  template <int dim> void op_scheme(const Options &o);
  template <int dim> void op_order(const Options &o);
  template <int dim> void op_equilibrium(const Options &o);
  template <int dim> void op_boundary(const Options &o);
  template <int dim> void op_dump(const Options &o);
  template <int dim> void op_initial(const Options &o);
  template <int dim> void op_quantities(const Options &o);
  template <int dim> void op_parabolic(const Options &o);
  template <int dim> void op_output(const Options &o);
  template <int dim> void op_limiter(const Options &o);
  template <int dim> void op_riemann(const Options &o);
  template <int dim> void op_thermo(const Options &o);
} // namespace sim
#define INSTANTIATE_OP(op)                    \
  namespace sim                               \
  {                                           \
    template void op<1>(const Options &);     \
    template void op<2>(const Options &);     \
    template void op<3>(const Options &);     \
  }
