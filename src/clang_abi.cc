// clang 18 and gcc mangle std::is_same<...>::value inside an enable_if return
// type differently; the deal.II library was compiled with gcc.
#define FORWARD(FROM, TO)                                                      \
  asm(".text\n.globl " FROM "\n.type " FROM ", @function\n" FROM ":\n"         \
      "  jmp " TO "@PLT\n");

FORWARD("_ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS_13LinearAlgebra11distributed6VectorIdNS_11MemorySpace4HostEEEEENSt9enable_ifIXsr3std7is_sameINT_10value_typeEdEE5valueEvE4typeERSA_RKSA_",
        "_ZNK6dealii16TrilinosWrappers12SparseMatrix5vmultINS_13LinearAlgebra11distributed6VectorIdNS_11MemorySpace4HostEEEEENSt9enable_ifIXsrSt7is_sameINT_10value_typeEdE5valueEvE4typeERSB_RKSB_")
