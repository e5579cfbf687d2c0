// The repository's power functions (generic path) for wide vectorised types.
#include <simd.cc>

namespace ryujin
{
#define WIDE(T, w)                                                                                                        \
  template dealii::VectorizedArray<T, w> pow(const dealii::VectorizedArray<T, w>, const T);                               \
  template dealii::VectorizedArray<T, w> pow(const dealii::VectorizedArray<T, w>, const dealii::VectorizedArray<T, w>);   \
  template dealii::VectorizedArray<T, w> fast_pow(const dealii::VectorizedArray<T, w>, const T, const Bias);              \
  template dealii::VectorizedArray<T, w> fast_pow(                                                                        \
      const dealii::VectorizedArray<T, w>, const dealii::VectorizedArray<T, w>, const Bias);
  WIDE(double, 4)
  WIDE(float, 8)
  WIDE(double, 2)
  WIDE(float, 4)
} // namespace ryujin
