prop('P26', 'Multi-threaded kernels are race-free and independent of the thread count',
     'Compiled with OpenMP (the library\'s own build does so), every vector, matrix, sparse and solver operation gives, for every number of threads, every assignment of loop iterations to threads and every interleaving, the result of its sequential definition, '
     'also when the result is one of the operands, when fewer threads than requested are granted, and in the accelerator build run on the host. No two threads access the same element without synchronisation with one of them writing.',
     ['schedules', 'inputs', 'configurations'], 'all assignments of iterations to threads, all interleavings (data-race freedom decided over all pairs of accesses), all element values, lengths to both sides of the parallel threshold',
     'Tests run one thread count and one schedule; a race or a wrong partition shows only at other team sizes, longer vectors or unlucky timing.',
     ['ops/vec_ops_core.hpp', 'ops/mat_vec_ops_core.hpp', 'ops/mat_mat_ops_core.hpp', 'ops/mat_ops.hpp'],
     [('parallel and offloaded loops', 'ops/vec_ops_core.hpp'), ('matrix kernels', 'ops/mat_mat_ops_core.hpp')],
     SE + 'exact reals with a model of the OpenMP runtime; conflicting accesses of two threads decided by z3 over all pairs',
     RN + ' Race-freedom reduces all interleavings to the one executed. Team sizes 1, 2, 3 and one thread per iteration (64; thorough 160); tasks and nested regions are outside.')
prop('P09', 'Operations compose: sequences give the same results under every backend',
     'Any sequence of vector, matrix and sparse operations on shared objects (results written onto operands, values of operators used as operands, elements written in between, objects copied, moved and swapped) leaves every object with the contents that the '
     'definitions of the operations give when applied one after the other, in every build configuration (internal kernels, BLAS, LAPACK, accelerator, assertions on). No operation keeps or leaks state that changes a later one.',
     ['histories', 'inputs', 'configurations'], 'all histories of the stated length over the operations, all element values, all backends',
     'Tests call each operation once on fresh objects with the one backend of their build; an operation that damages an operand or keeps state shows only in a later step.',
     ['ops/vec_ops.hpp', 'ops/mat_vec_ops.hpp', 'ops/mat_mat_ops.hpp', 'ops/mat_ops.hpp', 'ops/sp_mat_ops.hpp'],
     [('vector kernels of all backends', 'ops/vec_ops_core.hpp'), ('matrix kernels of all backends', 'ops/mat_mat_ops_core.hpp')],
     REAL, RN + ' Histories of 3 (thorough 4) operations of size 2, shorter ones at other sizes.')
prop('P27', 'Copies are independent and solver objects own their matrix',
     'Copying, assigning (also to itself), moving or swapping any matrix or vector object yields objects with the same contents that are independent of each other: changing or growing one never shows in another. '
     'A solver object (Cholesky, packed, modified, tri-diagonal, incomplete LU, GMRES) owns what it needs: it solves correctly after the matrix it was built from was changed or destroyed, after being copied or moved, and for right-hand sides in any order.',
     ['histories', 'inputs'], 'all element values, positions of the change, patterns, orders of copy/move/change/destroy within the bounds',
     'Tests build one object and use it once; sharing between copies, dangling references and solver state show only after copies, moves and destruction in particular orders.',
     ['mat/dyn_mat.hpp', 'mat/sized_mat.hpp', 'mat/sp_mat.hpp', 'vec/dyn_vec.hpp', 'solver/cholesky_factorization.hpp', 'solver/tri_diag.hpp', 'solver/ilu.hpp', 'solver/gmres.hpp'],
     [('dense and structured containers', 'mat/dyn_mat.hpp'), ('sparse containers', 'mat/sp_mat.hpp'), ('solver objects', 'solver/cholesky_factorization.hpp')],
     REAL + '; byte-level memory model with object lifetimes', RN)
prop('P28', 'Empty problems and rejected calls are handled safely',
     'Every operation accepts empty operands (vectors of length zero, matrices without rows or columns, sparse and structured matrices without elements, no right-hand sides, systems of size zero) and gives the empty or trivially defined result, in every build configuration. '
     'A rejected call (failed factorization, wrong list length, mismatched sizes, write outside the pattern) raises an error the caller can handle, releases what it allocated and leaves the operands and all later calls intact. No such call reads or writes outside the objects.',
     ['inputs', 'configurations'], 'all public operations at their empty sizes and all rejecting calls, all element values and other dimensions within the bounds',
     'Tests never use empty operands and look at most at one rejected call; an index computed as n-1, a leak on an error path or a damaged operand goes unnoticed.',
     ['vec/dyn_vec.hpp', 'mat/dyn_mat.hpp', 'mat/sp_mat.hpp', 'solver/tri_diag.hpp', 'solver/cholesky_factorization.hpp', 'solver/gmres.hpp', 'ops/orthogonal.hpp'],
     [('element kernels', 'ops/vec_ops_core.hpp'), ('tri-diagonal elimination', 'solver/internal/tdma.hpp'), ('packed storage sizes', 'mat/dyn_mat.hpp')],
     REAL + '; byte-level memory model (bounds, initialisation, lifetimes, leaks)', RN)
