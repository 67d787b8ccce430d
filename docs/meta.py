#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 docs/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/lalib/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': [I + f for f in files],
                           **({'state': [{'name': a, 'meaning': b, 'where': I + c} for a, b, c in state]} if state else {}),
                           'mechanism': [{'name': a, 'where': I + b} for a, b in mech],
                           **({'observe_at': observe} if observe else {}), 'hook_needed': None},
                  _t=technique, _n=note))


SE = 'symbolic execution of the compiled headers (LLVM IR) over '
REAL = SE + 'exact reals, obligations decided by rational normal form and z3'
BITS = SE + 'IEEE-754 bit patterns, obligations decided by z3'
INT = SE + 'symbolic indices/lengths, obligations decided by z3'
BASE = ('Every path within the stated sizes is encoded from the current headers and decided for all element values; counterexamples are '
        'replayed on the natively compiled library before being reported. ')
RN = BASE + ('Arithmetic is exact (reals): rounding, overflow and underflow are outside. Larger sizes than listed in the evidence are outside. '
             'Trusted: clang 18 as front end, the encoder, z3, the reference model of the external BLAS/LAPACK routines.')

prop('P01', 'Vector addition, subtraction and negation are element-wise exact',
     'Adding, subtracting or negating vectors yields, at every position, exactly the IEEE sum, difference or negation of the operand elements '
     'at that position, in the result and in the returned value. This holds for every length including zero, for every combination of '
     'fixed-size and dynamic vectors, for in-place and value-returning forms, and also when the result vector is the same object as one or both operands. '
     'Operands that are not the result are left unchanged.',
     ['inputs', 'configurations'], 'all element bit patterns, lengths, operand kinds, aliasing, internal/BLAS/accelerated builds',
     'The tests use one or two hand-picked vectors of length 4 or so; vectorised/blocked loops, tails and special values are never varied.',
     ['ops/vec_ops.hpp', 'ops/vec_ops_core.hpp', 'vec/dyn_vec.hpp', 'vec/sized_vec.hpp'],
     [('add/sub/neg kernels', 'ops/vec_ops_core.hpp'), ('dispatching overloads and operators', 'ops/vec_ops.hpp')],
     BITS, BASE + 'Float and double are bit-precise, complex is over the reals. Lengths: see evidence.')
prop('P02', 'Scaling, division by a scalar and axpy compute the stated linear form',
     'Scaling a vector by a scalar, dividing it by a nonzero scalar, and adding a multiple of one vector to another give at every position '
     'a*x, x/a and a*x+y of the elements at that position, keeping the element type. This holds for every length, for every element type '
     '(single, double, complex), fixed-size or dynamic, in place or copying, including when both vectors of an update are the same object or the scalar is an element of the scaled vector.',
     ['inputs', 'configurations'], 'all scalars, element values, lengths, element types, aliasing, internal/BLAS/accelerated builds',
     'Tests sample one scalar and one short double vector per operation; no float, no complex division, no long vectors, no aliasing.',
     ['ops/vec_ops.hpp', 'ops/vec_ops_core.hpp', 'ops/ops_traits.hpp'],
     [('axpy/scale kernels', 'ops/vec_ops_core.hpp'), ('scaled, operators * and /', 'ops/vec_ops.hpp'), ('reciprocal', 'ops/ops_traits.hpp')],
     REAL, RN)
prop('P03', 'Dot products and norms equal the sum of products for every length',
     'The inner product of two vectors equals the sum over all positions of the products of their elements, and the squared norm and norm are the '
     'inner product of a vector with itself and its non-negative root. Every position contributes exactly once, for every length including zero, '
     'every real element type and every combination of fixed-size and dynamic operands.',
     ['inputs', 'configurations'], 'all element values and lengths, float/double/integer elements, internal and BLAS builds',
     'Tests use length 4; errors confined to block boundaries, empty vectors or other element types are invisible.',
     ['ops/vec_ops.hpp', 'ops/vec_ops_core.hpp', 'vec/dyn_vec.hpp', 'vec/sized_vec.hpp'],
     [('dot and norm kernels', 'ops/vec_ops_core.hpp'), ('member dot/norm', 'vec/dyn_vec.hpp')], REAL,
     RN + ' The result does not depend on the reduction order because arithmetic is exact.')
prop('P04', 'Cross products follow the right-hand rule for all operands and aliasing',
     'The cross product of two three-dimensional vectors has the three components of the right-hand rule, and that of two two-dimensional vectors is '
     'the signed area; the accumulating form adds the cross product to the result vector. This holds for fixed-size and dynamic operands and results in every combination, also when the result vector is one of the operands.',
     ['inputs', 'configurations'], 'all component values, operand kinds, aliasing; release and assertion-enabled builds',
     'Two examples with fixed numbers and no aliasing are tested.',
     ['ops/vec_ops.hpp', 'ops/vec_ops_core.hpp'], [('cross kernels and overloads', 'ops/vec_ops.hpp')], REAL, RN)
prop('P05', 'Vector operations on mismatched sizes are rejected and leave data intact',
     'A vector operation whose operands (or result vector) have different lengths raises the size-mismatch error, which can be caught by the caller, '
     'and neither operand nor the result vector is changed. With equal lengths the operation never raises it. No such call reads or writes outside the vectors.',
     ['inputs', 'fault_sequences'], 'all pairs and triples of lengths up to the bound, every value; fixed-size against dynamic',
     'Each error test uses one pair of sizes; the third operand and the caught-exception path are not covered.',
     ['ops/vec_ops.hpp', 'vec/dyn_vec.hpp', 'vec/sized_vec.hpp', 'err/error.hpp'],
     [('size checks', 'ops/vec_ops.hpp'), ('SizeMismatched', 'err/error.hpp')], INT,
     BASE + 'Exceptions are encoded (invoke/landingpad, noexcept terminate). Lengths up to 4 (7 thorough).')
prop('P06', 'Matrix sum, difference, negation and scaling are element-wise exact',
     'Adding, subtracting, negating or scaling matrices of equal shape yields at every row and column exactly the corresponding combination of the operand '
     'elements, keeping the shape. This holds for every shape (non-square, single row or column, empty), element type, fixed-size and dynamic matrices, in place and copying, '
     'and when the result is one of the operands or the factor is an element of the scaled matrix.',
     ['inputs', 'configurations'], 'all element values, shapes, element types, aliasing; internal/BLAS/accelerated builds',
     'Tests use one 2x2..3x3 double example per operator.',
     ['ops/mat_ops.hpp', 'ops/vec_ops_core.hpp', 'mat/dyn_mat.hpp', 'mat/sized_mat.hpp'], [('matrix add/sub/neg/scale', 'ops/mat_ops.hpp')],
     BITS + '; scaling over exact reals', BASE + 'Sum/difference/negation bit-precise, scaling and complex over the reals.')
prop('P07', 'Matrix-vector product equals alpha*A*x + beta*y for all shapes and aliasing',
     'The matrix-vector product computes, for each row, alpha times the sum over all columns of matrix element times vector element, plus beta times the previous '
     'result element, with alpha and beta arbitrary (and one and zero when omitted); the product operator is the case without prior result. It holds for every shape including '
     'no rows or no columns, element type, and when the result is the operand vector itself.',
     ['inputs', 'configurations'], 'all values of matrix, vectors, alpha and beta; shapes; internal and BLAS builds',
     'Tests use square or 2x3 examples with beta absent; leading dimension, transposition and aliasing errors do not show.',
     ['ops/mat_vec_ops.hpp', 'ops/mat_vec_ops_core.hpp'], [('gemv kernels', 'ops/mat_vec_ops_core.hpp'), ('mul overloads', 'ops/mat_vec_ops.hpp')], REAL, RN)
prop('P08', 'Matrix-matrix product equals alpha*A*B + beta*C for all shapes and aliasing',
     'The matrix product computes, for every row and column of the result, alpha times the sum of products along the inner dimension plus beta times the previous '
     'element, with alpha and beta arbitrary (one and zero when omitted). It holds for every compatible shape including empty inner dimension, all fixed-size/dynamic combinations, '
     'every element type, and when the result is one or both of the factors.',
     ['inputs', 'configurations'], 'all matrix elements, alpha and beta; shapes; aliasing; internal, BLAS and assertion-enabled builds',
     'Square or nearly square samples hide dimension mix-ups; alpha, beta and aliasing are not varied.',
     ['ops/mat_mat_ops.hpp', 'ops/mat_mat_ops_core.hpp'], [('gemm kernels', 'ops/mat_mat_ops_core.hpp'), ('mul overloads', 'ops/mat_mat_ops.hpp')], REAL, RN)
prop('P10', 'Containers store and return elements at the addressed position only',
     'A vector or dense matrix built from given data (list, filler, storage in row order, diagonal, identity, zeros) reads back, through every accessor and iteration, the element given for each position. '
     'Writing through any mutable access changes exactly the addressed element and nothing else; copies, moves and assignments carry the same contents, and copies are independent.',
     ['inputs', 'histories'], 'all element values, all valid (symbolic) row/column indices, shapes incl. non-square and empty',
     'Tests read a few positions of one small matrix; they never establish that no other element changes.',
     ['mat/dyn_mat.hpp', 'mat/sized_mat.hpp', 'vec/dyn_vec.hpp', 'vec/sized_vec.hpp'],
     [('row-major indexing', 'mat/dyn_mat.hpp'), ('element access', 'vec/dyn_vec.hpp')], BITS, BASE + 'Indices are solver variables over the whole valid range.')
prop('P11', 'Structured matrices represent their pattern: triangular, symmetric, tri-diagonal',
     'A tri-diagonal, symmetric/Hermitian packed, lower, upper triangular or Hessenberg matrix reads, at every row and column, the stored element of that position (or of its mirror), and zero outside its pattern. '
     'Writing inside the pattern changes exactly that entry (and its mirror); writing outside is rejected with an out-of-range error and changes nothing. Only element counts that fit the pattern are accepted.',
     ['inputs'], 'all stored elements and all (symbolic) row/column indices of matrices up to the bound',
     'Tests read a handful of fixed positions of one 3x3/4x4 example.',
     ['mat/dyn_mat.hpp', 'mat/sized_mat.hpp'], [('packed index maps', 'mat/dyn_mat.hpp'), ('fixed-size index maps', 'mat/sized_mat.hpp')], INT,
     BASE + 'Sizes 1..7 (10 thorough).')
prop('P12', 'Growing a triangular or Hessenberg matrix keeps existing entries',
     'Extending an upper triangular or Hessenberg matrix by one row and column keeps every existing entry, sets the new column to the given elements (or zeros), and leaves everything below the pattern zero, '
     'through any sequence of extensions from an empty, reserved or given matrix. An extension with a list of the wrong length raises an error and leaves the matrix unchanged.',
     ['histories', 'inputs'], 'all sequences of extensions up to the bound, all values, wrong lengths at any point',
     'One extension sequence is tested; error atomicity and capacity interplay are not.',
     ['mat/dyn_mat.hpp'], [('extend/extend_with_zero', 'mat/dyn_mat.hpp')], INT, BASE + 'Histories of up to 3 (5) extensions.')
prop('P13', 'Back substitution solves every upper triangular system',
     'Back substitution with an upper triangular matrix with nonzero diagonal returns the vector whose product with the matrix is the right-hand side, for every storage of the right-hand side. '
     'A right-hand side shorter or longer than the matrix is handled as documented (rejected) without touching memory outside it.',
     ['inputs'], 'all matrices with nonzero diagonal and all right-hand sides up to the bound',
     'One 3x3 system is tested.', ['mat/dyn_mat.hpp'], [('back substitution', 'mat/dyn_mat.hpp')], REAL, RN)
prop('P14', 'The 2x2 inverse is the two-sided inverse',
     'Inverting a regular 2x2 matrix yields the matrix whose product with the original, from either side, is the identity. This holds for the copying and the in-place form, every element type, and leaves the source of the copying form unchanged.',
     ['inputs', 'configurations'], 'all 2x2 matrices with nonzero determinant; internal and BLAS builds',
     'One numeric example is tested.', ['mat.hpp', 'mat/sized_mat.hpp', 'ops/mat_ops.hpp'], [('inverse', 'mat.hpp')], REAL, RN)
prop('P15', 'Coordinate sparse matrices represent exactly the given entries',
     'A coordinate-format sparse matrix built from entries in any order reads the given value at each given position and zero elsewhere, has the shape spanned by its largest row and column, and lists its entries consistently. '
     'Writing to a stored position changes just that entry; positions without an entry cannot be written and lists of unequal length are rejected.',
     ['inputs'], 'all positions (symbolic) and orders of up to 3 entries, every pattern of small matrices, all values',
     'Tests load one matrix file in sorted order plus two small examples.',
     ['mat/sp_mat.hpp'], [('sort on construction, lookup', 'mat/sp_mat.hpp')], INT, BASE + 'Bounds in evidence.')
prop('P16', 'Compressed sparse matrices represent the same matrix as their source',
     'Converting a coordinate matrix to compressed-row format (copying or moving) preserves every entry, shape and the number of stored elements, including empty rows; building one from compressed lists reads exactly the listed entries. '
     'Reads elsewhere give zero (or the documented out-of-range error for the checked accessor), writes change just the addressed stored entry, and identity matrices are identities.',
     ['inputs'], 'all positions of up to 3 entries, every 2x3/3x2/3x3 pattern incl. empty leading/inner rows, all values',
     'The one file-based test has no empty rows; a few entries are compared.',
     ['mat/sp_mat.hpp'], [('row pointer conversion', 'mat/sp_mat.hpp'), ('row-range lookup', 'mat/sp_mat.hpp')], INT, BASE + 'Bounds in evidence.')
prop('P17', 'Adding or subtracting sparse matrices is exact for every pair of patterns',
     'The sum or difference of two coordinate sparse matrices, in-place or as a value, reads at every position the sum or difference of what the operands read there, whatever the two patterns (overlapping, disjoint, empty rows, different shapes), also when both operands are the same object. '
     'The right operand is unchanged and the result can be converted or added again.',
     ['inputs', 'histories'], 'all pairs of 2x2 and 1x5 patterns, up to 2+2 entries at arbitrary positions, all values, chains of sums',
     'Two specific pattern pairs are tested; the merge has many more cases.',
     ['mat/sp_mat.hpp', 'ops/sp_mat_ops.hpp'], [('merge of sorted entry lists', 'mat/sp_mat.hpp'), ('operators', 'ops/sp_mat_ops.hpp')], REAL, RN)
prop('P18', 'Sparse products and scaling agree with the dense matrix they represent',
     'The product of a sparse matrix with a vector equals the dense definition alpha*A*x + beta*y for every pattern, with the result vector separate from or identical to the operand. Scaling and negating a sparse matrix scales every element and keeps the pattern.',
     ['inputs', 'configurations'], 'every small pattern, all values, alpha, beta; aliasing; internal and BLAS builds',
     'One pattern, default alpha and beta, no aliasing are tested.',
     ['ops/mat_vec_ops.hpp', 'ops/mat_vec_ops_core.hpp', 'ops/sp_mat_ops.hpp', 'ops/mat_ops.hpp'],
     [('sparse gemv kernel', 'ops/mat_vec_ops_core.hpp'), ('sparse scale/neg', 'ops/sp_mat_ops.hpp')], REAL, RN)
prop('P19', 'Cholesky factorization solves every positive definite system',
     'For every symmetric positive definite matrix the Cholesky factorization succeeds, and solving with it returns the exact solution for one vector or several columns, fixed-size or dynamic, copying or in place, for square and packed storage. Solving again with the same factorization gives the same result and operands of the copying form are unchanged. In a LAPACK build the same holds for complex Hermitian positive definite matrices.',
     ['inputs', 'configurations', 'histories'], 'all positive definite matrices up to size 4 (5), all right-hand sides; internal and LAPACK builds; complex Hermitian matrices up to 3x3 under LAPACK',
     'Two fixed systems are tested.', ['solver/cholesky_factorization.hpp', 'solver/internal/cholesky_decomposition.hpp', 'solver/lapack/potr.hpp'],
     [('factorization and substitution', 'solver/internal/cholesky_decomposition.hpp'), ('LAPACK wrappers', 'solver/lapack/potr.hpp')], REAL,
     RN + ' Matrices are parametrised by their Cholesky factor, which covers all of them.')
prop('P20', 'Cholesky rejects exactly the matrices that are not positive definite',
     'Cholesky factorization raises the not-positive-definite error for a symmetric matrix if and only if the matrix is not positive definite, whichever pivot fails and also when an element is NaN; otherwise the factor reproduces the matrix. In a LAPACK build complex Hermitian matrices are judged in the same way.',
     ['inputs', 'configurations'], 'all symmetric matrices up to 3x3; any failing pivot up to size 5; NaN at each position; internal and LAPACK builds; complex Hermitian matrices under LAPACK',
     'One indefinite example (or none) is tested; zero and first-pivot failures are not.',
     ['solver/cholesky_factorization.hpp', 'solver/internal/cholesky_decomposition.hpp', 'solver/lapack/potr.hpp'],
     [('pivot test', 'solver/internal/cholesky_decomposition.hpp'), ('info to exception', 'solver/lapack/potr.hpp')], REAL, RN)
prop('P21', 'Modified Cholesky solves every symmetric system with nonzero pivots',
     'The square-root-free Cholesky factorization of a symmetric (possibly indefinite) matrix with nonzero leading minors reproduces the matrix from its factors, and solving with it returns the exact solution for one or several right-hand sides, in place or copying. A zero pivot raises an error instead of producing garbage.',
     ['inputs'], 'all symmetric matrices up to size 4 (5) with nonzero pivots, all right-hand sides; a zero at every pivot',
     'One positive definite example is tested.', ['solver/cholesky_factorization.hpp', 'solver/internal/cholesky_decomposition.hpp'],
     [('L D^-1 L^T factorization', 'solver/internal/cholesky_decomposition.hpp')], REAL, RN)
prop('P22', 'The tri-diagonal solver returns the exact solution and can be reused',
     'Solving a tri-diagonal system whose elimination has nonzero pivots returns the exact solution, for one vector or several columns, fixed-size or dynamic, copying or in place, for every size including one and zero. The solver object can be used for further right-hand sides with the same correctness, and inputs of copying forms are unchanged.',
     ['inputs', 'configurations', 'histories'], 'all tri-diagonal matrices up to size 6 (8) with nonzero pivots, all right-hand sides, repeated solves; internal and LAPACK builds',
     'Two fixed systems, each solved once.', ['solver/tri_diag.hpp', 'solver/internal/tdma.hpp', 'solver/lapack/gtsv.hpp'],
     [('Thomas algorithm', 'solver/internal/tdma.hpp'), ('LAPACK wrapper', 'solver/lapack/gtsv.hpp')], REAL, RN)
prop('P23', 'Incomplete LU agrees with the matrix on its pattern and solves its factors',
     'The zero-fill incomplete LU factorization has unit lower and upper triangular factors confined to the nonzero pattern of the matrix, whose product equals the matrix on that pattern; preconditioning solves exactly with these factors, so it solves the system itself when elimination creates no fill. A vanishing pivot (including the last) raises an error, and otherwise none is raised.',
     ['inputs'], 'every 3x3 pattern with full diagonal, band/arrow patterns, all values; sparse and dense inputs',
     'Two fixed matrices are tested.', ['solver/ilu.hpp'], [('incomplete factorization', 'solver/ilu.hpp'), ('preconditioner application', 'solver/ilu.hpp')], REAL,
     RN + ' Stored elements are nonzero (a stored zero counts as outside the pattern).')
prop('P24', 'GMRES returns a solution within the requested tolerance',
     'For a regular matrix with nonzero pivots and any positive tolerance, the iterative solver returns a vector whose preconditioned residual norm is below the tolerance, the exact solution when a single iteration suffices or the tolerance is negligible, and zero for a zero right-hand side. It terminates within as many iterations as unknowns and leaves matrix and right-hand side unchanged.',
     ['inputs'], 'all regular 1x1 and 2x2 systems, 3x3/4x4 systems without fill, nine matrices with fill times arbitrary scale and tolerance',
     'One fixed system of moderate size, with one tolerance, is tested.', ['solver/gmres.hpp', 'solver/ilu.hpp', 'ops/orthogonal.hpp', 'mat/dyn_mat.hpp'],
     [('Arnoldi process and Givens rotations', 'solver/gmres.hpp')], REAL, RN)
prop('P25', 'Gram-Schmidt yields orthogonal vectors spanning the same spaces',
     'Orthogonalizing a list of linearly independent vectors leaves the first vector unchanged, makes all vectors pairwise orthogonal, and makes each one differ from the original by a combination of the preceding ones. Lists of zero or one vector are unchanged, and vectors may be fixed-size or dynamic.',
     ['inputs', 'configurations'], 'all lists of up to 2 vectors, bases of 3- and 4-space given by orthogonal frames times triangular factors; internal and BLAS builds',
     'One 3-vector example is tested.', ['ops/orthogonal.hpp'], [('classical Gram-Schmidt', 'ops/orthogonal.hpp')], REAL, RN)

NOT = []
exec(open(os.path.join(V, 'docs', 'more.py')).read()) if os.path.exists(os.path.join(V, 'docs', 'more.py')) else None
P.sort(key=lambda p: p['id'])
na = {n['property'] for n in NOT}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['_t'], 'level': 'model_checking', 'level_note': p['_n']}
                for p in P if p['id'] not in na],
     'not_applicable': NOT,
     'notes': 'Bounded symbolic checking of the real headers; no hooks in /repo. See DESIGN.md. Replays: ./replay.sh FILE'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
for p in open(os.path.join(V, 'properties.jsonl')):
    jsonschema.validate(json.loads(p), json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
