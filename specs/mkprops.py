#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text is reviewable)"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
SM = 'include/sparsematrix.hpp'
p('C01', 'Sparse matrix-vector products equal the mathematical product',
  'For every valid CSR matrix A and every input vector of matching length, the sparse product overwrites the whole output with A x, '
  'y_i = sum of a_ij x_j over the stored entries of row i (duplicate entries add up, empty rows give 0), and the transposed product overwrites it '
  'with A^T x. Nothing but the output is modified, no element outside the operands is accessed, and the vector, operator and returned-vector forms agree.',
  ['inputs'], 'all sizes including 0, all valid sparsity patterns (unsorted and duplicate columns included), all finite values in exact arithmetic, all previous output contents',
  'the tests multiply a handful of fixed small matrices and mostly print the results',
  [SM, 'src/operator.cpp', 'src/vectorview.cpp'],
  [('Mult / MultAT on vector views', SM), ('operator* and vector-returning overloads', SM), ('Operator::Mult overloads', 'src/operator.cpp')])
p('C02', 'Sparse/dense conversions and sparse-times-dense products are exact',
  'For every valid CSR matrix A and dense B of matching size, the sparse-dense products give AB, A^T B and (AB)^T in an output of exactly that shape regardless '
  'of its earlier shape or contents. Converting A without repeated coordinates to dense (or to its transpose in dense form) gives exactly its entries and zeros elsewhere, '
  'and neither operand is modified.',
  ['inputs'], 'all sizes including 0, all valid patterns, all earlier output shapes and contents, exact arithmetic',
  'tests use one square fixture and never a reused, non-square or larger output',
  [SM, 'include/densematrix.hpp', 'src/densematrix.cpp'],
  [('Mult/MultAT/MultCT with DenseMatrix', SM), ('ToDense/TransposeDense', SM)])
p('C03', 'Sparse transpose is the exact transpose and a valid CSR matrix',
  'For every valid CSR matrix, the transpose is a valid CSR matrix with rows and columns exchanged that holds every stored entry exactly once with its two coordinates swapped and its value unchanged. '
  'Within each row of the result columns appear in ascending order, and the source is unchanged.',
  ['inputs'], 'all sizes including 0 and all valid patterns including unsorted and duplicate columns, empty rows and columns',
  'tests transpose two small matrices and print them', [SM], [('Transpose', SM)])
p('C04', 'Sparse-sparse product equals the mathematical product in valid CSR form',
  'For valid CSR matrices A and B with matching inner size, the product is a valid CSR matrix C with c_ij = sum_k a_ik b_kj, storing at most one entry per coordinate and only coordinates some pair of stored entries reaches. '
  'The caller-supplied marker form gives the same result for a marker of all -1, and A and B are unchanged.',
  ['inputs'], 'all conforming sizes including 0, all valid patterns including duplicates, exact arithmetic',
  'tests multiply one fixture by its own transpose', [SM], [('Mult(SparseMatrix) and the marker form', SM)])
p('C05', 'Sparse submatrix extraction selects exactly the requested entries',
  'For every valid CSR matrix A, row list and duplicate-free column list, the extracted submatrix is a valid CSR matrix of the requested size whose entries are exactly the stored entries of A at (rows[i], cols[j]), renumbered to (i, j), in the order they occur. '
  'The scratch marker passed in (all -1, at least as long as A is wide) is all -1 again afterwards, so it can be reused for any number of extractions, and A is unchanged.',
  ['inputs', 'histories'], 'all matrices, index lists (empty, unsorted, repeated rows) and any sequence of extractions reusing one marker',
  'tests extract one fixture submatrix with a fresh marker', [SM], [('GetSubMatrix', SM)])
p('C06', 'In-place sparse edits change exactly the documented entries',
  'Scaling rows or columns (directly or by inverse), scalar operations, adding to the diagonal, permuting columns, eliminating rows/columns (with or without the right-hand-side correction b -= A_ij x_j), sorting indices and dropping small entries change exactly the entries their description names, by exactly the documented amount. '
  'All other stored entries, the shape and the CSR validity are preserved, and the eliminated rows/columns of a marker keep an existing diagonal entry as 1 where documented. '
  'Reading the diagonal, the sum of the entries or the sum of their magnitudes returns the value defined by the stored entries.',
  ['inputs'], 'all valid matrices, markers, scale vectors and permutations, exact arithmetic; duplicate-free rows where one entry per coordinate is meant',
  'tests apply a few edits to one fixture and print it', [SM],
  [('Scale*/InverseScale*', SM), ('Eliminate*', SM), ('AddDiag/GetDiag', SM), ('PermuteCols, SortIndices, EliminateZeros', SM)])
p('C07', 'Coordinate matrices represent the sum of their entries in every form',
  'After any sequence of additions, a coordinate matrix denotes the matrix whose (i, j) value is the sum of all values added at (i, j): conversion to sparse and to dense, the product and the transposed product all equal that matrix, for rectangular shapes too. '
  'Without a fixed size it is as small as its largest indices require, the sparse conversion is a valid CSR matrix with one entry per coordinate, block additions add each scaled value exactly once, permutations move row or column p to perm[p], and dropping zeros removes exactly the entries of magnitude at most the tolerance.',
  ['inputs', 'histories'], 'all sequences of additions, repeated coordinates included, all shapes, exact arithmetic',
  'tests add a few entries to a square matrix', ['include/coomatrix.hpp'],
  [('Add family', 'include/coomatrix.hpp'), ('ToSparse/ToDense/Mult/MultAT', 'include/coomatrix.hpp'), ('FindSize', 'include/coomatrix.hpp')])
p('C08', 'List-of-lists matrices represent the sum of their entries in every form',
  'After any sequence of additions, a list-of-lists matrix denotes the matrix whose (i, j) value is the sum of all values added at (i, j): conversion to sparse and to dense, the product and the transposed product all equal that matrix, for rectangular shapes too. '
  'Without a fixed size it is exactly as large as the largest indices added require (at least 1x1), setting the size gives that size, and its sparse form is a valid CSR matrix with sorted, distinct columns per row.',
  ['inputs', 'histories'], 'all sequences of additions, repeated coordinates included, empty and trailing empty rows, fixed and automatic size, exact arithmetic',
  'tests add a few entries to a square matrix', ['include/lilmatrix.hpp'],
  [('Add, SetSize, FindSize', 'include/lilmatrix.hpp'), ('ToSparse/ToDense/Mult/MultAT', 'include/lilmatrix.hpp')])
D = ['include/densematrix.hpp', 'src/densematrix.cpp']
p('C09', 'Dense element, row, column and sub-block access touches exactly its target',
  'Every dense read of an element, row, column, diagonal, transpose, range or index-list submatrix or horizontal stack returns exactly the addressed elements, and every write (element, row, column, range, transposed range, indexed addition) changes exactly the addressed elements to the given values. '
  'No other element changes, column views alias the matrix, and no access leaves the storage of the matrix.',
  ['inputs'], 'all shapes, index ranges, index lists and contents',
  'tests read back a few blocks of a single small matrix', D,
  [('operator(), GetRow/GetCol/SetRow/SetCol', D[0]), ('GetSubMatrix/SetSubMatrix/SetSubMatrixTranspose/AddSubMatrix', D[1]), ('HStack', D[1])])
p('C10', 'Dense arithmetic and products equal the mathematical operations',
  'For all conforming dense matrices and vectors, A x, A^T x, A B, A^T B, A B^T and A^T B^T equal the mathematical products and have the mathematical shape whatever the output held before; sums, differences, scalar operations, row/column scalings and entry sums act on every entry exactly once. '
  'Operands other than the target are unchanged, and every call into the BLAS kernel satisfies its argument requirements for all sizes including empty ones.',
  ['inputs'], 'all conforming shapes including 0, all previous outputs, exact arithmetic',
  'tests use square and a single rectangular fixture', D,
  [('dgemm wrapper', D[1]), ('Mult/MultAT on vectors', D[0]), ('elementwise operators', D[1])])
p('C11', 'Dense factorizations call LAPACK within its contract for every shape',
  'For every dense matrix shape, inversion, singular values, orthonormalisation and the eigensolver pass LAPACK arguments that satisfy its documented requirements, with every array at least as large as the routine may access, so no memory outside the operands is touched. '
  'Results have the documented shape, the results are exactly what the routine returned, and a const operand is unchanged.',
  ['inputs'], 'all shapes (tall, wide, square, empty) and contents; the requested number of eigenpairs may exceed the size',
  'tests factor a few square fixtures', D + ['src/eigensolver.cpp'],
  [('Invert/SVD/QR', D[1]), ('EigenSolver::Solve', 'src/eigensolver.cpp')])
p('C12', 'Block matrices act as the assembled monolithic matrix',
  'A block matrix with any offsets, in which any subset of blocks is set, denotes the matrix with each set block at its offsets and zeros elsewhere: its product, transposed product and combined CSR form all agree with that matrix. '
  'Its transpose denotes the transposed matrix, and reading a block returns what was set.',
  ['inputs', 'histories'], 'all offsets (empty and rectangular blocks included), all subsets of set blocks, exact arithmetic',
  'tests use one 2x2 layout with square blocks', ['include/blockmatrix.hpp'],
  [('SetBlock/GetBlock/Transpose/Combine', 'include/blockmatrix.hpp'), ('Mult/MultAT', 'include/blockmatrix.hpp')])
p('C13', 'Block operators and block vectors compose exactly by their offsets',
  'A block operator applied to x writes, for each block row, the sum over the set blocks of that block applied to its slice of x (zero where none is set), and the transposed product likewise, for all offsets and any linear operators as blocks. '
  'A block vector slice aliases exactly its offset range, and copies are independent; nothing but the output changes and repeated applications give the same result.',
  ['inputs', 'histories'], 'all offsets, all subsets of set blocks, repeated applications',
  'tests apply one 2x2 operator to one vector', ['src/blockoperator.cpp', 'include/blockoperator.hpp', 'include/blockvector.hpp'],
  [('BlockOperator::Mult/MultAT', 'src/blockoperator.cpp'), ('BlockVector', 'include/blockvector.hpp')])
p('C14', 'Vector and view operations act elementwise on exactly their range',
  'Elementwise vector operations (add, subtract, multiply, divide, scale, set, scaled add/subtract, copy from another view) compute the mathematical result for every element of the target range, and inner product, norms, sum, mean, extrema and entry counts equal their definitions. '
  'A view aliases exactly the range it was made from, sub-views likewise, assigning to a view writes through, and no element outside the range is read or written.',
  ['inputs'], 'all lengths including 0, all contents, operand aliasing (x op x), exact arithmetic',
  'tests evaluate a few operations on short vectors', ['include/vectorview.hpp', 'include/vector.hpp', 'src/vectorview.cpp'],
  [('VectorView operators', 'include/vectorview.hpp'), ('Vector', 'include/vector.hpp')])
p('C15', 'Matrices and vectors have value semantics',
  'Copying, assigning, moving or swapping vectors, dense, sparse, coordinate, list and block matrices yields objects equal to the source value; a copy shares no storage with its source, so later changes to either are invisible in the other, and moving preserves the value in the destination. '
  'Self-assignment keeps the value and every object reads only initialised state.',
  ['inputs', 'histories'], 'all contents and shapes, all sequences of copy, move, assign and swap',
  'tests copy a few fixed objects and print them', [SM, 'include/vector.hpp', D[0], 'include/coomatrix.hpp', 'include/lilmatrix.hpp', 'include/blockmatrix.hpp'],
  [('copy/move constructors, assignment, swap', SM), ('Vector copy/move', 'include/vector.hpp')])
p('C16', 'Conjugate gradients tracks the true residual and honours its stopping rule',
  'In exact arithmetic, for a symmetric positive definite operator (with or without an SPD preconditioner), the residual the solver carries equals b - A x at every iteration, so it stops before the iteration limit only when the (preconditioned) squared residual of the returned x is below the larger of the relative and absolute tolerance squared. '
  'It does at most max(1, max_iter) steps, reports an iteration count of at most max(1, max_iter), modifies only x, and leaves an already exact initial guess unchanged.',
  ['inputs', 'histories'], 'all sizes, SPD operators, right-hand sides, initial guesses, tolerances and limits',
  'tests solve one Laplacian', ['src/solvers.cpp', 'include/solvers.hpp'], [('PCGSolver::Mult', 'src/solvers.cpp'), ('CG/PCG', 'src/solvers.cpp')])
p('C17', 'MINRES solvers respect the iteration limit and update only the solution',
  'The (preconditioned) MINRES solvers apply the operator at most max_iter + 1 times, stop early only when their residual estimate is below tolerance, report an iteration count no larger than the limit, and modify only x. '
  'With an exact initial guess they return it unchanged.',
  ['inputs', 'histories'], 'all sizes, symmetric operators, right-hand sides, initial guesses, tolerances and limits',
  'tests solve one system and print the iteration count', ['src/solvers.cpp', 'include/solvers.hpp'], [('MINRESSolver::Mult', 'src/solvers.cpp'), ('PMINRESSolver::Mult', 'src/solvers.cpp')])
p('C18', 'Writing a matrix or vector to disk and reading it back is lossless',
  'For every matrix or vector of a supported element type, writing it in a format (text, binary, coordinate list, CSR, Matrix Market, table) and reading the file back with the matching reader gives exactly the same entries, bit for bit. '
  'Symmetric coordinate files restore both triangles, indices are shifted by the base of the format exactly once, and a missing file raises an error.',
  ['inputs'], 'all matrices, patterns and finite values',
  'tests round-trip fixtures with short decimal values', ['include/parser.hpp'], [('Read*/Write*', 'include/parser.hpp')])
p('C19', 'Command-line parsing assigns exactly the given options',
  'Each option present on the command line is parsed into its variable, absent options keep their defaults, unknown or malformed options make the parse fail, and help lists each option.',
  ['inputs'], 'all argument vectors', 'tests parse one argument vector', ['src/argparser.cpp', 'include/argparser.hpp'], [('ArgParser', 'src/argparser.cpp')])
p('C20', 'Partitioning helpers build the exact graph and contiguous part numbers',
  'The adjacency structure handed to the partitioner holds exactly the off-diagonal pattern of the matrix, row by row in order, with the absolute values as weights when weighted and 1 otherwise. '
  'Renumbering removes empty parts while keeping part order, so the result uses every number from 0 to the number of non-empty parts minus one and two vertices share a part exactly when they did before.',
  ['inputs'], 'all valid CSR matrices and all part vectors', 'tests partition one graph and print the result',
  ['modules/partition/include/partition.hpp'], [('MakeAdjacencyInfo', 'modules/partition/include/partition.hpp'), ('RemoveEmpty', 'modules/partition/include/partition.hpp')])
p('C21', 'The direct sparse solver solves with A and with A^T through every copy',
  'For every nonsingular sparse matrix the direct solver application yields x with A x = b and the transposed application x with A^T x = b, given that the factorisation library solves the systems it is asked to. '
  'Copies, moves and assignments solve the same system as their source, each factorisation is released exactly once, and a matrix without entries yields zero.',
  ['inputs', 'histories'], 'all square matrices, right-hand sides and copy/move histories', 'tests solve one system',
  ['modules/sparsesolver/src/sparsesolve.cpp'], [('SparseSolver::Mult/MultAT', 'modules/sparsesolver/src/sparsesolve.cpp'), ('SparseSolver copy/move', 'modules/sparsesolver/src/sparsesolve.cpp')])
p('C22', 'Distributed matrices act as the global matrix across ranks',
  'Distributed matrix products, transposes and triple products over any row distribution equal the corresponding serial operation on the assembled global matrix.',
  ['inputs', 'configurations'], 'all distributions and matrices', 'the distributed module is not even built here',
  ['modules/parlinalgcpp/src/parmatrix.cpp'], [('ParMatrix', 'modules/parlinalgcpp/src/parmatrix.cpp')])
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
