#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/tensor.h>
#include <deal.II/base/vectorization.h>
#include <deal.II/base/function_parser.h>
#include <deal.II/base/smartpointer.h>
#include <deal.II/base/timer.h>
#include <deal.II/base/config.h>
#include <deal.II/base/point.h>
#include <deal.II/numerics/vector_tools.h>
#include <deal.II/multigrid/mg_transfer_matrix_free.h>
#include <deal.II/lac/vector.h>
#include <deal.II/lac/sparse_matrix.templates.h>
#include <deal.II/lac/la_parallel_block_vector.h>
#include <deal.II/base/partitioner.h>
#include <deal.II/numerics/data_out.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/base/work_stream.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/numerics/vector_tools.templates.h>
#include <deal.II/multigrid/mg_base.h>
#include <deal.II/matrix_free/fe_evaluation.h>
#include <deal.II/lac/sparse_matrix.h>
#include <deal.II/lac/precondition.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/base/utilities.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/function.h>
#include <deal.II/base/array_view.h>
#include <deal.II/multigrid/multigrid.h>
#include <deal.II/multigrid/mg_smoother.h>
#include <deal.II/multigrid/mg_matrix.h>
#include <deal.II/multigrid/mg_coarse.h>
#include <deal.II/matrix_free/matrix_free.h>
#include <deal.II/lac/sparsity_tools.h>
#include <deal.II/lac/solver_cg.h>
#include <deal.II/lac/linear_operator.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/diagonal_matrix.h>
#include <deal.II/grid/tria.h>
#include <deal.II/grid/tensor_product_manifold.h>
#include <deal.II/grid/manifold_lib.h>
#include <deal.II/grid/manifold.h>
#include <deal.II/grid/grid_refinement.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/fe/mapping.h>
#include <deal.II/fe/fe_system.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/distributed/solution_transfer.h>
#include <deal.II/distributed/shared_tria.h>
#include <deal.II/base/thread_management.h>
#include <deal.II/base/table.h>
#include <deal.II/base/revision.h>
#include <deal.II/base/quadrature.h>
#include <deal.II/base/parallel.h>
#include <deal.II/base/mutex.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/base/mg_level_object.h>
#include <deal.II/base/memory_consumption.h>
#include <deal.II/base/logstream.h>
#include <deal.II/base/graph_coloring.h>
#include <deal.II/base/aligned_vector.h>
#include <array>
#include <atomic>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <vector>
