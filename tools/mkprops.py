import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,**k):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(k)
    if "state" in a: a["state"]=[{"name":n,"meaning":n,"where":files[0]} for n in a["state"]]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
S="include/sparsematrix.hpp";D="include/densematrix.hpp";DC="src/densematrix.cpp";C="include/coomatrix.hpp";L="include/lilmatrix.hpp"
V="include/vector.hpp";VV="include/vectorview.hpp";BM="include/blockmatrix.hpp";BO="src/blockoperator.cpp";BV="include/blockvector.hpp";O="src/operator.cpp"
SO="src/solvers.cpp";SP="modules/sparsesolver/src/sparsesolve.cpp";EI="src/eigensolver.cpp";PA="include/parser.hpp";AR="src/argparser.cpp";PT="modules/partition/include/partition.hpp";TI="src/timer.cpp"
p("C01","Applying a matrix computes A x and A^T x, whatever form A is stored in",
 "For every linear operator the library offers (sparse, dense, coordinate, list-of-lists, block, block-of-operators), applying it to a vector yields sum_j A(i,j) x(j) in component i, and the transposed application yields sum_i A(i,j) x(i) in component j, including empty rows or columns, zero dimensions and mixed element types. All ways of asking (returned vector, automatically resized output, caller's view as output, operator syntax, inner product y^T A x, several columns at once) agree. The previous contents of the output never influence the result.",
 ["inputs","histories"],"All operator kinds, shapes (including 0 and non-square), sparsity patterns, entry values, vector contents, output prior contents, and overloads.",
 "Tests apply a few 3x3..5x5 matrices to constant vectors and print; they never compare the overloads over shapes with empty rows, zero dimensions, or dirty outputs.",
 [S,D,C,L,BM,BO,O],[("SparseMatrix::Mult/MultAT",S),("DenseMatrix::Mult/MultAT",D),("Coo/Lil Mult",C),("Operator overloads, InnerProduct",O)],observe_at=["returned or filled vectors"])
p("C02","Entry-by-entry builders accumulate: the matrix is the sum of everything added",
 "After any sequence of additions (single, symmetric, dense block, scaled, row, column, list) into a coordinate or list-of-lists builder, converting to sparse or dense form yields at each position the sum of all contributions made there, and zero elsewhere. The size is the one set by the user, or otherwise one more than the largest row and column index added. Conversion does not change the builder, further additions afterwards keep accumulating, and removal of small entries removes exactly those at or below the tolerance while permutations relabel exactly the stored positions.",
 ["histories","inputs"],"Any interleaving of Add variants, size changes, permutations, eliminations and conversions, for double and int builders, sized or auto-sized.",
 "Tests perform one fixed insertion sequence; interleavings of conversion with later additions, duplicates and auto-sizing are unbounded.",
 [C,L],[("Add/AddSym overloads",C),("ToSparse/ToDense",C),("LilMatrix::ToSparse/FindSize",L)],state=["list of (i,j,value) contributions","declared size"])
p("C03","Every sparse matrix produced is structurally valid and self-consistent",
 "Any sparse matrix obtained from a public operation has a row pointer array of rows+1 entries that starts at 0, never decreases and ends at the number of stored entries, with column indices and values of that length, every column index in range and no column repeated within a row. Its accessors (rows, columns, stored-entry count, row sizes, per-row indices and values, diagonal, sums, dense form) all describe the same matrix. Sorting indices leaves the matrix equal and every row strictly increasing.",
 ["histories","inputs"],"All sparse matrices reachable by composing builders, products, transposes, submatrices, eliminations, block combination, copies and reads.",
 "A malformed row pointer often still yields the right product for the handful of small matrices a test multiplies; validity must hold after every composition of operations.",
 [S,C,L,BM,PA,PT],[("CSR arrays",S),("producers: ToSparse, Transpose, Mult, GetSubMatrix, Combine, readers",S)],state=["row pointers","column indices","values"])
p("C04","Sparse products, transposes and submatrices equal their mathematical definition",
 "The product, transpose, dense product (plain, transposed, result-transposed), and row/column extraction of sparse matrices equal, entry by entry, the mathematical result for every pattern, shape and element-type mix, for arbitrary orders of the selected rows and columns. Results do not depend on the order of entries within rows nor on what a caller-supplied workspace was used for before (products accept any contents; extraction expects -1 entries, and leaves them so, ready for reuse).",
 ["inputs","histories"],"All conforming sparse operands (unsorted rows, empty rows, explicit zeros, cancelling entries, int/double mixes), all selections, and all sequences sharing a workspace.",
 "Marker-array algorithms fail only for particular patterns or for the second use of a workspace; tests run one or two patterns each.",
 [S],[("Mult(SparseMatrix) two-pass marker algorithm",S),("Transpose counting sort",S),("GetSubMatrix marker",S)],observe_at=["resulting matrix","workspace contents"])
p("C05","In-place sparse edits change exactly the entries they name",
 "Scaling by a scalar or by row/column values (and inverse scaling), setting all stored values, eliminating rows, columns or row-column pairs (by index or by mask, with the matching right-hand-side correction), adding to the diagonal, permuting columns and dropping small entries change exactly the documented stored entries to exactly the documented values. Every other entry, the shape, and every other object stay as they were.",
 ["inputs","histories"],"Any sparse matrix and any sequence of in-place edits with any indices, masks and factors.",
 "Tests check one elimination on one matrix; the frame condition (everything else unchanged) is never asserted.",
 [S],[("operator*=,/=,=",S),("Scale*/InverseScale*",S),("Eliminate*",S),("AddDiag",S),("PermuteCols",S)],state=["stored entries"])
p("C06","Dense arithmetic, block access and reshaping equal their definition",
 "Dense sums, differences, scalings, the four product forms (AB, A^T B, A B^T, A^T B^T), transposes, row/column/diagonal access, range and index-list block reads, block writes (plain and transposed), block accumulation, side-by-side stacking, row and column scalings and reductions produce exactly the mathematically defined entries for all conforming shapes, including shapes with a zero dimension. Writes to a block leave every entry outside the block untouched, and outputs are resized to the result shape whatever they held before.",
 ["inputs","histories"],"All conforming dense operands and index ranges, and sequences of block writes and reads.",
 "Tests use square 2x2..5x5 cases where swapped leading dimensions or off-by-one ranges are invisible.",
 [D,DC],[("dgemm wrapper leading dimensions",DC),("Get/SetSubMatrix",DC),("SetSubMatrixTranspose, AddSubMatrix, HStack",DC)],state=["column-major storage"])
p("C07","Dense inverse, QR and singular values satisfy their defining equations",
 "For every nonsingular matrix the computed inverse X satisfies A X = X A = I; for every matrix with at least as many rows as columns the orthogonalisation yields orthonormal columns spanning the original columns; the singular value routine returns non-negative non-increasing values whose squares are the spectrum of A^T A, with orthonormal left vectors consistent with them. Variants with an output argument leave the source unchanged and give the same result as the in-place variants.",
 ["inputs"],"All well-conditioned real matrices of any shape accepted (tall, square, wide, 1xn, empty), diagonal, permuted and rank-deficient cases.",
 "Tests factor one fixed matrix and print it.",
 [DC],[("Invert (dgetrf/dgetri)",DC),("QR (dgeqp3/dorgqr)",DC),("SVD (dgesvd)",DC)])
p("C08","Views alias and vectors own: writes are seen exactly where storage is shared",
 "A view onto a vector, a raw array, a dense column, a block of a block vector or a row's index list shares storage with it: every write through either is visible through the other immediately and nothing else changes. Constructing a vector from a view, a copy or a sub-vector extraction produces independent storage, and assigning to a view copies values into the viewed storage rather than rebinding the view.",
 ["histories"],"All interleavings of view creation, writes through views or owners, assignments between views and vectors, and copies.",
 "Aliasing bugs need a particular interleaving of create/write/read; tests check one pair.",
 [VV,V,D,BV,S],[("VectorView assignment operators",VV),("Vector copy/assign/SetData",V),("GetColView",D),("BlockVector::GetBlock",BV)],state=["storage cells","views (owner, offset, length)"])
p("C09","Vector arithmetic, reductions and normalisation follow their formulas",
 "Entrywise and scalar arithmetic, scaled additions, inner products, norms, sums, means, extreme values (plain and by magnitude), sub-vector extraction, equality within tolerance, average removal and normalisation compute their documented formulas on exactly the entries of the vector, for double and int vectors of every length and for views as well as owning vectors. Three-operand combinations set the target from the operands only. Randomising with a given non-negative seed is reproducible, fills every entry and stays inside the requested range.",
 ["inputs","histories"],"All vector lengths, contents (negative, zero, equal magnitudes), element types, aliasing between operands, seeds and ranges.",
 "Tests use constant vectors, for which sign, order, first-element and in-place mistakes cancel.",
 [VV,V,"src/vectorview.cpp"],[("compound operators",VV),("AbsMax/Max/Min/AbsMin/Sum/Mean",VV),("Randomize/Normalize/SubAvg","src/vectorview.cpp")])
p("C10","Copies are independent, moves and swaps transfer, nothing leaks",
 "Copying any library object (vectors, views' owners, matrices of every kind, block objects, solvers, eigensolvers, direct solvers, timers) gives an object with equal observable state whose later changes never affect the original and vice versa; moving transfers the state; swapping exchanges states completely; self-assignment and assignment over a previously used object leave exactly the source's state. All objects, including moved-from ones, can be destroyed or reassigned, and no memory is leaked or freed twice.",
 ["histories"],"All sequences of construct, copy, move, swap, assign, modify and destroy over all object kinds.",
 "Requires lifetime sequences (assign over non-empty, move then reuse, swap of different shapes) far beyond the single copies in tests.",
 [V,S,D,C,L,BM,BV,"include/blockoperator.hpp",SO,SP,TI],[("copy-and-swap special members","all headers"),("numeric factor ownership",SP)],state=["object states","live memory"])
p("C11","Block matrices, block operators and block vectors act as the monolithic object",
 "A block matrix or block operator with any offsets behaves exactly like the single matrix obtained by placing each block at its offsets, with unset blocks as zero: application, transposed application, combination, transposition and block retrieval all agree with that matrix. Replacing a block changes exactly that part, operators referenced by a block operator are applied as they are at application time, and the blocks of a block vector partition its entries in order.",
 ["inputs","histories"],"All block layouts (including empty blocks, zero-width offsets, rectangular grids), subsets of set blocks and sequences of block replacement and application.",
 "Tests use one 2x2 layout with equal square blocks in which a wrong offset or a missing transpose is invisible.",
 [BM,"include/blockoperator.hpp",BO,BV],[("Mult/MultAT/Combine/Transpose",BM),("BlockOperator::Mult workspaces",BO)],state=["offsets","grid of blocks"])
p("C12","Iterative solvers converge, respect their limits and keep no history",
 "For symmetric positive definite systems conjugate gradients, and for symmetric nonsingular systems the minimal residual method (plain or preconditioned by a symmetric positive definite operator), return a vector solving the system to the requested tolerance when enough iterations are allowed, from any initial guess including the exact solution and for a zero right-hand side. The right-hand side and operator are not modified, the reported iteration count never exceeds the maximum, and a solver reused for other right-hand sides, operators or limits gives the same answer as a fresh one.",
 ["inputs","histories","configurations"],"All well-conditioned systems of any size, initial guesses, tolerances, iteration limits, preconditioners, and reuse sequences.",
 "Tests print the result of one system each; restart, early-exit, exhausted-limit and reuse behaviour is not asserted.",
 [SO,"include/solvers.hpp"],[("PCGSolver::Mult",SO),("MINRESSolver::Mult",SO),("PMINRESSolver::Mult",SO)],state=["iterate","iteration counter","work vectors"])
p("C13","The sparse direct solver inverts the system it was given",
 "A direct solver built from a nonsingular sparse matrix returns x with A x = b for the plain solve and A^T x = b for the transposed solve, for every right-hand side, independently of previous solves and regardless of later changes to or destruction of the caller's matrix. Copies, moves and reassignments of the solver keep solving the system of the matrix they came from.",
 ["inputs","histories"],"All nonsingular sparse matrices (any pattern and entry order), right-hand sides, and solver lifetimes.",
 "The test solves one small system once.",
 [SP],[("UMFPACK factor and solve",SP),("copy/move of numeric factor",SP)],state=["matrix copy","numeric factor"])
p("C14","Eigenpairs are correct, ordered, orthonormal and selected by the stated rule",
 "For every symmetric matrix the eigensolver returns all eigenvalues in non-decreasing order together with orthonormal eigenvectors satisfying A v = lambda v for the leading ones. The number of eigenvectors is the number of eigenvalues not above the relative tolerance times the largest eigenvalue, capped by the requested maximum (no cap if negative), and at least one. Results do not depend on earlier calls with other sizes, dense and sparse input agree, and the input matrix is not changed.",
 ["inputs","histories","configurations"],"All symmetric matrices (repeated, negative, zero eigenvalues, decoupled blocks, 1x1), tolerances, counts, and sequences of calls on one solver object.",
 "The test solves one 3x3 matrix twice; workspace reuse between sizes and selection boundaries are not covered.",
 [EI,"include/eigensolver.hpp"],[("tridiagonalise / eigenvalues / inverse iteration / back-transform",EI),("eigenvector count rule",EI)],state=["work arrays"])
p("C15","Writing an object to a file and reading it back gives the same object",
 "For every vector and sparse matrix, writing in any of the library's formats (text, coordinate list, matrix market, compressed rows, binary, tables) and reading the file back with the matching reader reproduces the same shape and, bit for bit, the same values, including empty objects where the format can express them, negative, tiny and huge values, trailing empty rows and unsorted entries.",
 ["inputs"],"All shapes, patterns and finite double or int values for each writer/reader pair.",
 "Precision loss, off-by-one indices and dropped trailing rows only show for particular values and shapes.",
 [PA],[("Write*/Read* pairs",PA)],state=["file content"])
p("C16","Readers deliver what the file says and refuse files they cannot read",
 "Reading any well-formed file in a supported format (coordinate text with or without symmetry or size line, matrix market with 1-based indices, comments and symmetric storage, adjacency lists and tables, integer lists, compressed rows, binary) yields exactly the matrix or vector the file denotes, in either element type. A missing or unopenable file is reported by an exception rather than an empty result, and truncated binary or compressed-row input never yields fabricated data or memory errors.",
 ["inputs","fault_sequences"],"All well-formed files up to a size bound in each format, plus missing and truncated files.",
 "Tests read a few fixed data files.",
 [PA],[("Read* functions",PA)],state=["file content"])
p("C17","Command-line parsing assigns, toggles and reports exactly what was passed",
 "For any well-formed argument vector and any registered options, every option present takes the value that follows it (a boolean option toggles, with or without a value), absent options keep their defaults, and neither depends on the order of options or registrations. Parsing is reported good exactly when no option was passed twice, no option was registered twice and help was not requested, and every such problem is listed. The printed options and help list each registered option once with its final value and description.",
 ["inputs","programs"],"All argument sequences and registration orders over all supported value types.",
 "Tests feed a few fixed argument vectors.",
 [AR,"include/argparser.hpp"],[("ArgParser::Parse/IsGood/ShowOptions/ShowErrors",AR)],state=["seen arguments","variables","errors"])
p("C18","Partitioning labels every vertex with one of the contiguous part ids",
 "For every symmetric graph and requested number of parts, the partition assigns each vertex exactly one label, labels are contiguous from 0 and every label up to the largest is used, the number of parts never exceeds the request or the number of vertices, the input graph is not modified, and repeated calls give the same answer; with contiguity requested, the parts of a two-way partition of a connected graph are themselves connected. The graph, edge weights, number of parts, balance and contiguity asked for are the ones the partitioner is given, and its answer is only renumbered. Removing empty parts only renumbers: two vertices share a label afterwards exactly if they did before, and the order of labels is preserved.",
 ["inputs","configurations"],"All graphs (disconnected, edgeless, with or without diagonal entries, complete), part counts from 1 to more than the number of vertices, with and without forced contiguity.",
 "Tests partition one or two fixed graphs.",
 [PT],[("Partition/PartitionAL",PT),("RemoveEmpty",PT)],observe_at=["label vector"])
p("C19","Operations with mismatched shapes or indices are refused in checked builds",
 "In an assertion-enabled build, every vector, matrix, builder, block and solver operation called with operands whose sizes do not match its mathematical definition, or with an index outside the object, stops with an assertion or exception instead of reading or writing memory outside its operands or returning a result. Conforming calls, including zero-size ones, are never refused.",
 ["inputs"],"All public operations that take several operands or indices, with every kind of non-conforming size and boundary index.",
 "Tests only make conforming calls, so a weakened or misplaced check is invisible to them.",
 [S,D,DC,C,L,BM,BO,VV,SO],[("precondition asserts","all headers")])
p("C20","Timers account every interval exactly once",
 "A timer's recorded intervals are the elapsed times between consecutive start and click events, in order; the total equals the sum of the recorded intervals and each interval can be read back by its index. Restarting, copying or reading a timer never loses or double counts an interval, and recorded durations are never negative nor shorter than the time actually spent.",
 ["histories"],"All sequences of start, click, read and copy operations.",
 "Tests click once or twice and print.",
 [TI,"include/timer.hpp"],[("Timer::Click/TotalTime/operator[]",TI)],state=["interval list","last event time"])
p("C21","Printed output lists the object's label and every stored entry once",
 "Printing any vector, matrix, builder or block object writes to the given stream its label followed by each stored entry exactly once, with its own row and column position and its value, in the documented layout, and the dense layouts place every entry at its row and column. Printing changes neither the object nor anything it shares, and writes nowhere else.",
 ["inputs"],"All printable objects, labels, shapes and values.",
 "Tests print to the console and never read the text.",
 [VV,S,D,DC,C,L,BM],[("Print/PrintDense/operator<<","all headers")],observe_at=["output stream text"])
p("C22","Distributed vectors, matrices and solvers match their serial counterparts",
 "For any distribution of rows over processes, distributed matrix-vector products, transposes, matrix products, inner products, norms, elimination of boundary conditions and solvers give the same global result as the serial operation on the assembled data, on every process. Copied, assigned and moved distributed objects behave like their source.",
 ["configurations","inputs"],"All process counts, row distributions and matrices.",
 "Results depend on how rows fall on processes and which columns are remote; the existing tests need MPI and hypre and sample a few runs.",
 ["modules/parlinalgcpp/src/parmatrix.cpp","modules/parlinalgcpp/src/paroperator.cpp","modules/parlinalgcpp/src/parvector.cpp","modules/parlinalgcpp/src/parsolvers.cpp","modules/parlinalgcpp/src/hypre_ops.cpp"],[("ParMatrix/ParOperator/ParVector","modules/parlinalgcpp")])
p("C23","No hidden effects: inputs stay intact and history does not matter",
 "Across any program mixing library operations, each call changes only the objects it documents as outputs, leaving every input and every unrelated object (including ones sharing types, workspaces or earlier results) bit-for-bit unchanged. The result of a call depends only on the current values of its arguments, never on which calls were made before, how an object was obtained, or what an output held.",
 ["histories","programs"],"All programs over all object kinds composed from public operations.",
 "Interference shows only between particular pairs of operations in sequence; unit tests use fresh objects per case.",
 [S,D,C,L,BM,BO,VV,V],[("mutable workspaces",BO),("sorting inside const conversion",L),("marker reuse",S)],state=["the heap of all live objects"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
