# Dense and sparse linear algebra ----------------------------------------------------------------
prop("A01", "Dense vector and matrix algebra equals its mathematical definition",
 """Every operation on the dense vector, matrix, 3D and 4D array types (products with optional transposition and
 accumulation, norms, inner products with strides and offsets, block, row and column access, resizing that keeps the
 existing content, determinants, inverses, and multiplication of whole vectors by transformation matrices) gives the value of its mathematical
 definition for all dimensions, in single and double precision, with and without a BLAS library.
 Failures (incompatible dimensions, singular matrices) are reported as such and leave no wrong result behind, and no operation touches memory outside its operands.""",
 ["inputs", "configurations"], "All matrix and vector dimensions, strides, offsets, transposition and accumulation flags, and element values.",
 "The tests compute a handful of small fixed products with one build configuration; the code has separate paths per transposition, stride and BLAS/no-BLAS build.",
 ["src/LinAlg/matrix.h", "src/LinAlg/matrixnd.h", "src/LinAlg/MatVec.C", "src/LinAlg/MatVec.h"],
 [("vector/matrix kernels", "src/LinAlg/matrix.h"), ("3D/4D arrays", "src/LinAlg/matrixnd.h"), ("transform/invert", "src/LinAlg/MatVec.C")])
prop("A02", "All system matrix storage formats represent the same matrix",
 """Assembling the same element matrices and vectors into any available system matrix format gives the same global matrix, whatever
 the order of assembly, and that matrix is what the format's multiplication, addition, scaling, copying, truncation, column and row extraction, and dumping then use.
 A preassembly of the sparsity pattern changes neither the resulting matrix nor the right-hand-side.""",
 ["inputs", "histories"], "All sequences of element contributions, matrix sizes, storage formats and subsequent matrix operations.",
 "Tests assemble one or two fixed patterns; the formats (dense, map based sparse, compressed, diagonal) have separate code for every operation.",
 ["src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/DiagMatrix.C", "src/LinAlg/SystemMatrix.C"],
 [("assembly and arithmetic", "src/LinAlg/SparseMatrix.C"), ("dense storage", "src/LinAlg/DenseMatrix.C"), ("factory and base", "src/LinAlg/SystemMatrix.C")])
prop("A03", "A solved linear system satisfies its equations in every direct format",
 """Solving a non-singular linear equation system with any available direct solver returns the vector that satisfies the assembled equations to rounding level, for one or several
 right-hand-sides, for both first-time solution and re-solution with the retained factorization, and the format in use does not change the solution.
 A singular system is reported as failed rather than silently accepted.""",
 ["inputs", "histories"], "All regular matrices and right-hand-sides, all sequences of assembly, solution and re-solution.",
 "Tests solve a few fixed systems once.",
 ["src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/DiagMatrix.C"],
 [("SuperLU/UMFPACK drivers", "src/LinAlg/SparseMatrix.C"), ("LAPACK driver", "src/LinAlg/DenseMatrix.C")])
prop("A04", "Iterative solvers reach the direct solution for every supported set-up",
 """With any supported combination of iterative method, preconditioner and tolerances given in the input, the iterative linear solver returns the same
 solution as a direct solver to within the requested tolerance, or reports failure; repeated solutions and several right-hand-sides are treated alike.""",
 ["inputs", "configurations"], "All combinations of solver and preconditioner settings and all diagonally dominant or symmetric positive definite systems.",
 "Tests run one Poisson matrix with two preconditioners.",
 ["src/LinAlg/ISTLMatrix.C", "src/LinAlg/ISTLSolParams.C", "src/LinAlg/LinSolParams.C"],
 [("ISTL set-up", "src/LinAlg/ISTLSolParams.C"), ("parameter parsing", "src/LinAlg/LinSolParams.C")])
prop("A05", "Eigenvalue solvers return eigenpairs of the given matrices",
 """Every eigenpair returned for a symmetric (generalised) eigenproblem satisfies the defining equation for the matrices as they were given, the pairs returned are the requested number of the lowest (or shifted)
 ones in ascending order, and all solution modes agree. Normalizing a mode shape gives it unit (mass) norm.""",
 ["inputs"], "All symmetric matrix pairs, solution modes, shifts and numbers of requested pairs.",
 "Tests solve one fixed problem per mode.",
 ["src/Eig/EigSolver.C", "src/LinAlg/DenseMatrix.C", "src/LinAlg/SparseMatrix.C"],
 [("eig::solve", "src/Eig/EigSolver.C")])

# Equation system and constraints ---------------------------------------------------------------
prop("B01", "Equation numbering and solution expansion are consistent",
 """Every free degree of freedom gets exactly one equation number in a gapless numbering, fixed and constrained ones get none, node-wise and
 element-wise queries of that numbering agree with each other, and expanding an equation-ordered solution gives each free degree of freedom its value, each prescribed one its prescribed value and
 each constrained one its linear combination of masters plus offset.
 Element extraction and vector reduction are the matching inverse operations.""",
 ["inputs", "configurations"], "All meshes, node-DOF layouts, boundary condition sets and multi-point constraint sets.",
 "Tests use two small fixed patterns of boundary conditions.",
 ["src/LinAlg/SAM.C", "src/ASM/SAMpatch.C"],
 [("equation initialization", "src/LinAlg/SAM.C"), ("patch-wise set-up", "src/ASM/SAMpatch.C")])
prop("B02", "Assembly with constraints equals the congruence transformation",
 """Assembling element matrices and load vectors in presence of prescribed values and multi-point constraints gives exactly the system obtained by assembling
 without constraints and then eliminating the constrained degrees of freedom (transformation matrix transposed times matrix times transformation matrix, with the prescribed parts moved to the right-hand-side).
 The reaction forces collected are the residual forces in the suppressed degrees of freedom.""",
 ["inputs", "configurations"], "All element matrices, constraint sets with arbitrary coefficients and offsets, and storage formats.",
 "Tests check assembled sizes and a single constraint equation.",
 ["src/LinAlg/SAM.C", "src/LinAlg/SparseMatrix.C", "src/LinAlg/DenseMatrix.C", "src/ASM/AlgEqSystem.C"],
 [("assembleSystem", "src/LinAlg/SAM.C"), ("assemSparse", "src/LinAlg/SparseMatrix.C"), ("equation system", "src/ASM/AlgEqSystem.C")])
prop("B03", "Chained multi-point constraints resolve to their independent masters",
 """A set of multi-point constraint equations whose masters are themselves slaves is resolved into equivalent equations in independent degrees of freedom only: any assignment of values satisfying the resolved
 equations satisfies all the given ones, including constant offsets and prescribed values.""",
 ["inputs", "histories"], "All acyclic constraint sets of any chain depth, insertion order, coefficients and offsets.",
 "Tests resolve one chain of fixed depth.",
 ["src/Utility/MPC.C", "src/ASM/ASMbase.C"],
 [("resolveMPCchains", "src/ASM/ASMbase.C"), ("MPC arithmetic", "src/Utility/MPC.C")])
prop("B04", "Thread groups partition the elements and never let conflicts run together",
 """The element groups used for multi-threaded assembly cover every element that is to be processed exactly once, and no two elements in different threads of the same group share a node,
 for any mesh, number of threads, element activity mask and strip direction.""",
 ["inputs", "configurations"], "All structured and unstructured mesh topologies, thread counts, masks and directions.",
 "Tests check fixed 8-element grids for fixed thread counts.",
 ["src/Utility/ThreadGroups.C", "src/ASM/ASMbase.C"],
 [("calcGroups", "src/Utility/ThreadGroups.C")])
prop("B05", "Multi-threaded execution is race free and gives the single-threaded result",
 """Threaded assembly and threaded solution-field evaluation give the same result as a single-threaded run for any number of threads and any interleaving, and no two threads access the same memory location without synchronisation where one of them writes.""",
 ["schedules", "inputs"], "All thread schedules and thread counts, for all meshes and functions evaluated.",
 "The tests run with one schedule on small data and without a race detector.",
 ["src/SIM/SIMbase.C", "src/ASM/AlgEqSystem.C", "src/ASM/GlbNorm.C", "src/Utility/ExprFunctions.C"],
 [("thread groups", "src/Utility/ThreadGroups.C"), ("per-thread expression instances", "src/Utility/ExprFunctions.C")])
prop("B07", "Patch node and boundary condition bookkeeping stays consistent",
 """Fixing, prescribing and constraining degrees of freedom of a patch, merging its nodes with those of another patch, and renumbering its nodes keep node numbers, boundary codes, constraints and the extraction and
 injection of patch vectors consistent with each other: each global value reaches exactly the local nodes that represent it, and no fixed degree of freedom becomes free or vice versa.""",
 ["inputs", "histories"], "All sequences of bookkeeping operations on all patches.",
 "Tests exercise single operations on a cube.",
 ["src/ASM/ASMbase.C", "src/ASM/ASMbase.h"],
 [("ASMbase", "src/ASM/ASMbase.C")])
prop("B08", "Superelements behave as their condensed equations",
 """A superelement read from file or input contributes exactly its stiffness and load entries to the nodes it is attached to, its geometric transformation is a congruence with the given rotation, and recovering
 its internal solution is the stated linear map of its supernode values.""",
 ["inputs"], "All superelement matrices, node sets, transformations and recovery matrices.",
 "Tests read two small fixed superelements.",
 ["src/ASM/ASMsupel.C", "src/SIM/SIMsupel.C"],
 [("ASMsupel", "src/ASM/ASMsupel.C"), ("SIMsupel", "src/SIM/SIMsupel.C")])

prop("B09", "Monolithically coupled simulators form one consistent equation system",
 """Simulators coupled in matching points, edges or faces get one common numbering of nodes, elements and equations, where exactly the connected nodes are shared, irrespective of the order of the simulators and of the direction and
number of the connections; all boundary conditions and multi-point constraints of each simulator hold in the common system, also on shared nodes, and assembling through all the simulators yields the equations, the reaction forces, the DOF types and the
solution of the coupled model. Connections between unknown or non-matching topologies are refused.""",
 ["inputs"], "All sets of simulators, patches, constraints and connections.",
 "No test of the repository couples simulators.",
 ["src/SIM/SIMmultiCpl.C", "src/ASM/SAMpatch.C", "src/SIM/SIMbase.C"],
 [("SIMmultiCpl::preprocessC", "src/SIM/SIMmultiCpl.C"), ("SAMpatch::merge", "src/ASM/SAMpatch.C"), ("SIMbase::merge", "src/SIM/SIMbase.C")])
prop("B11", "Partitions of the equations into blocks and subdomains are exact",
 """When the linear solver input divides the equations into blocks, by basis or by solution component, every equation belongs to exactly the blocks whose basis or components it has, with consecutive numbers within each block. The subdomains of the additive Schwarz preconditioners
are boxes of elements which together cover every patch, where neighbours share exactly the overlap asked for, and hold exactly the equations of their elements, within their block. One application of the block preconditioner is the stated (diagonal or upper) block elimination with the Schur complement
D - C diag(A)^-1 B, and all solutions with such preconditioners satisfy the equations.""",
 ["inputs", "configurations"], "All meshes, node types, fixed degrees of freedom, block definitions, numbers of subdomains and overlaps.",
 "The tests partition four fixed grids and compare the blocks of a single small matrix with stored files.",
 ["src/ASM/DomainDecomposition.C", "src/LinAlg/ISTLSolParams.C"],
 [("DomainDecomposition::setup", "src/ASM/DomainDecomposition.C"), ("DomainDecomposition::getSubdomains", "src/ASM/DomainDecomposition.C"), ("BlockPreconditioner", "src/LinAlg/ISTLSolParams.C")])
prop("B10", "Queries and updates of the model and its solution agree with each other",
 """What a simulator reports about its model agrees with the model analysed: named node sets, node numbers before and after renumbering, node types and positions, fixed degrees of freedom, the node closest to a point, the nodes of boundaries and patches, and the values of each patch in a
solution vector. Reaction forces (in total, per boundary and from a separate integration), interface and section forces, norms, extreme values and worst residuals are those of the given vectors. Updating the grid, activating elements and forming damping matrices changes exactly what it should:
new nodes get the mean of the nodes active before, and all others keep their values.""",
 ["inputs", "histories"], "All models, property sets, constraints, solutions, activation times and sequences of updates.",
 "The tests query a few of these on one or two patches; node sharing between patches, renumbering and extraordinary nodes are not sampled.",
 ["src/SIM/SIMbase.C", "src/LinAlg/SAM.C", "src/ASM/ReactionsOnly.C", "src/SIM/NewmarkSIM.C"],
 [("SIMbase::getBoundaryNodes", "src/SIM/SIMbase.C"), ("SIMbase::updateForNewElements", "src/SIM/SIMbase.C"), ("ReactionsOnly::assemble", "src/ASM/ReactionsOnly.C"), ("SAM::normInf", "src/LinAlg/SAM.C")])

# Utilities ---------------------------------------------------------------------------------------
prop("C01", "Text, number list, knot vector and XML attribute parsing is exact and total",
 """Every well-formed number list, integer range, knot vector specification, line of keyword input, unstructured mesh file (Matlab or XML) or XML attribute is read as exactly the values it denotes, and malformed or missing input yields the documented default or an error indication, never a crash.""",
 ["inputs"], "All strings and XML elements.",
 "Tests parse some ten fixed strings.",
 ["src/Utility/Utilities.C", "src/Utility/StringUtils.C", "src/ASM/ASMutils.C"],
 [("utl parsing", "src/Utility/Utilities.C")])
prop("C02", "Reordering, gathering and merging of arrays preserves the data",
 """Gathering, interleaving, deinterleaving, merging and renumbering of arrays place every source value exactly where the index map says, touch nothing else, and inverse operations restore the original.""",
 ["inputs"], "All array lengths, component counts, index maps and offsets.",
 "Tests use one fixed array per operation.",
 ["src/Utility/Utilities.C"],
 [("utl::gather, interleave, merge, renumber", "src/Utility/Utilities.C")])
prop("C03", "Tensor and 3D vector algebra satisfies its defining identities",
 """Tensor and vector operations (products, inner products, transposes, symmetric storage, transformations, rotations, inverses, determinants, principal values and directions, von Mises and other invariants, fourth-order tensors) satisfy their mathematical definitions
 in one, two and three dimensions and for all symmetric storage layouts (including the 2D layout with an out-of-plane normal component), also when result and operand are the same object.
 (The inner product of two symmetric tensors is that of their stored components, i.e., with engineering shear strains.)""",
 ["inputs"], "All tensors and vectors, including degenerate ones with repeated principal values.",
 "Tests check a few hand-computed tensors.",
 ["src/Utility/Tensor.C", "src/Utility/Tensor.h", "src/Utility/Tensor4.C", "src/Utility/Vec3.h", "src/Utility/Vec3Oper.C"],
 [("Tensor/SymmTensor", "src/Utility/Tensor.C"), ("Tensor4", "src/Utility/Tensor4.C"), ("Vec3", "src/Utility/Vec3.h")])
prop("C05", "Predefined time and space functions evaluate to their stated formulas",
 """Each predefined scalar, vector and time function evaluates to its documented formula for every argument, its parsed form equals the directly constructed one, its derivatives are the derivatives of its value, and tabulated functions interpolate their table.""",
 ["inputs"], "All function parameters, argument points and times.",
 "Tests evaluate some of the functions in a few points.",
 ["src/Utility/Functions.C", "src/Utility/Functions.h"],
 [("utl::parseRealFunc etc.", "src/Utility/Functions.C")])
prop("C06", "Expression functions and analytical solutions are consistent with derivatives",
 """An expression-based function evaluates to the value of its expression at every point and time, with user parameters as set last, from any thread; its first and second derivatives, time derivatives, and those of analytical solution fields built from it agree with differentiation of that value.""",
 ["inputs", "histories"], "All expressions in the supported grammar, points, times and parameter updates.",
 "Tests compare a few fixed expressions.",
 ["src/Utility/ExprFunctions.C", "src/Utility/AnaSol.C", "src/Utility/TensorFunction.C"],
 [("EvalFunc", "src/Utility/ExprFunctions.C"), ("AnaSol", "src/Utility/AnaSol.C")])
prop("C08", "Quadrature rules integrate polynomials exactly to their degree",
 """Each Gauss-Legendre and triangle quadrature rule offered has distinct points inside the reference domain, weights summing to the size of that domain, and integrates every polynomial up to its nominal degree exactly.
 Unsupported rules are refused. The quadrature points generated for elements cut by an immersed boundary lie inside the physical domain, and their weights sum to the physical part of the element to within the resolution of the subdivision depth; elements outside are reported as empty.""",
 ["inputs"], "All rule sizes offered, all polynomials up to the nominal degree, all immersed geometries and subdivision depths.",
 "There are tests for one or two rules only.",
 ["src/Utility/GaussQuadrature.C", "src/Utility/TriangleQuadrature.C", "src/Utility/Legendre.C", "src/ASM/ImmersedBoundaries.C"],
 [("GaussQuadrature", "src/Utility/GaussQuadrature.C"), ("Legendre", "src/Utility/Legendre.C")])
prop("C09", "Interpolation bases are partitions of unity with exact derivatives",
 """Lagrange, Legendre and Chebyshev basis functions and interpolants satisfy the Kronecker and partition-of-unity properties where applicable, reproduce polynomials of their degree, and their derivatives are the derivatives of their values, for all polynomial orders and evaluation points.""",
 ["inputs"], "All polynomial orders, node distributions and evaluation points.",
 "Tests evaluate single orders.",
 ["src/ASM/Lagrange.C", "src/Utility/Legendre.C", "src/Utility/Chebyshev.C", "src/Utility/LagrangeInterpolator.C"],
 [("Lagrange", "src/ASM/Lagrange.C"), ("Chebyshev", "src/Utility/Chebyshev.C")])
prop("C10", "Isoparametric mapping gives exact Jacobians, gradients and Hessians",
 """The Jacobian, its determinant, first- and second-derivatives of basis functions with respect to physical coordinates, boundary normals, and stabilization metric tensors computed for an element are those of the actual geometry mapping, for all dimensions, also for curves and surfaces embedded in space.""",
 ["inputs"], "All regular element geometries, polynomial orders and evaluation points.",
 "Tests check a couple of fixed geometries.",
 ["src/Utility/CoordinateMapping.C", "src/ASM/FiniteElement.C"],
 [("utl::Jacobian, Hessian, getGmat", "src/Utility/CoordinateMapping.C")])
prop("C11", "Visualization grids keep topology and data",
 """Element blocks built by resizing, unstructured construction with uniform or mixed element types, removal and merging of elements, and coordinate transformation have exactly the nodes, elements, connectivity, element numbers and parameters described; the predefined plane, cube, sphere and cylinder blocks have all their nodes on the shape they name and closed surfaces.""",
 ["inputs"], "All block dimensions, element types and merge sequences.",
 "Tests build a few blocks.",
 ["src/Utility/ElementBlock.C"],
 [("ElementBlock", "src/Utility/ElementBlock.C")])
prop("C12", "Logging delivers every message once to every selected stream",
 """Everything written to a log stream (data, manipulators, flushes, format changes) arrives exactly once, in order, in its main destination when that is set and enabled for the current process and in each of the extra destinations attached at that time, whatever sequence of attaching, detaching, redirecting, assignment and messages preceded; scoped loggers report the entry and the exit of each scope exactly once in nesting order.""",
 ["histories"], "All sequences of stream manipulations and messages.",
 "Tests write one message.",
 ["src/Utility/LogStream.C", "src/Utility/ScopedLogger.C"],
 [("LogStream", "src/Utility/LogStream.C")])
prop("C13", "Discrete fields interpolate their nodal values",
 """A nodal field over a Lagrange mesh evaluated at a point of an element gives the shape function combination of that element's nodal values only, its gradient is the spatial derivative of that, scalar and vector versions select and order the components alike, and points outside the mesh are rejected.""",
 ["inputs"], "All meshes, nodal values and evaluation points.",
 "Tests evaluate a linear field in a few points.",
 ["src/ASM/LagrangeField2D.C", "src/ASM/LagrangeField3D.C", "src/ASM/LagrangeFields2D.C", "src/ASM/LagrangeFields3D.C"],
 [("LagrangeField*", "src/ASM/LagrangeField2D.C")])

# Time integration, nonlinear solution, drivers ---------------------------------------------------
prop("D01", "Backward difference operators have their nominal order of accuracy",
 """The backward difference approximations of the first and second time derivative are exact for all polynomials up to their nominal degree, at every step after start-up and with the lower-order start-up sequence documented, also for variable step size where offered.""",
 ["inputs", "histories"], "All orders, step indices and polynomial solutions.",
 "Tests compare coefficient lists.",
 ["src/Utility/BDF.C", "src/Utility/BDF.h"],
 [("TimeIntegration::BDF", "src/Utility/BDF.C")])
prop("D02", "Time stepping covers the time domain exactly",
 """Advancing a time stepping scheme from start to stop visits strictly increasing times, ends at the stop time and nowhere beyond, uses the step sizes specified for each interval, adapts them to the iteration counts of the two previous steps or the CFL number when this is requested, and a cut-back or restart resumes
 from the last accepted time with a step within the limits given.""",
 ["inputs", "histories"], "All step specifications, cut-back histories and restarts.",
 "Tests step through a few constant-step domains.",
 ["src/SIM/TimeStep.C", "src/SIM/TimeStep.h"],
 [("TimeStep", "src/SIM/TimeStep.C")])
prop("D03", "Newmark, HHT and generalized-alpha integration satisfy the equation of motion",
 """For every linear dynamic system the converged state of each time step of the implicit dynamics drivers satisfies the discretised equation of motion of its scheme and the scheme's kinematic update formulas between consecutive displacement, velocity and acceleration.""",
 ["inputs", "histories"], "All linear dynamic systems, algorithmic parameters, loads and step sizes.",
 "Tests integrate a one-DOF oscillator with a fixed step.",
 ["src/SIM/NewmarkSIM.C", "src/SIM/HHTSIM.C", "src/SIM/GenAlphaSIM.C", "src/SIM/NewmarkNLSIM.C", "src/ASM/NewmarkMats.C", "src/ASM/HHTMats.C"],
 [("NewmarkSIM", "src/SIM/NewmarkSIM.C"), ("GenAlphaSIM", "src/SIM/GenAlphaSIM.C"), ("element matrices", "src/ASM/NewmarkMats.C")])
prop("D04", "Newton iterations report convergence only for solutions in equilibrium",
 """A nonlinear solution step that reports convergence has driven the residual, energy or displacement norm chosen below the tolerance requested; a step that diverges or runs out of iterations is reported as such, and each Newton correction is the solution of the linearised system, scaled only by the line search.""",
 ["inputs", "histories"], "All nonlinear problems, tolerances, iteration limits and norm options.",
 "No test covers failing iterations.",
 ["src/SIM/NonLinSIM.C"],
 [("NonLinSIM::solveStep, checkConvergence", "src/SIM/NonLinSIM.C")])
prop("D05", "Data written to result files and restart files is read back unchanged",
 """Every value exported through the result and restart writers is stored at the time level it was written for, can be read back bit by bit, and a simulation restarted from it continues from exactly the state saved. Initial conditions taken from a result file are the named field of the given time level on its mesh at that level, interpolated on the mesh of the new simulation.""",
 ["histories", "inputs"], "All sequences of dumped time levels, fields, strides and buffer-flush settings.",
 "Tests write one level with one vector.",
 ["src/Utility/HDF5Writer.C", "src/Utility/HDF5Restart.C", "src/Utility/HDF5Reader.C", "src/Utility/DataExporter.C"],
 [("HDF5Writer", "src/Utility/HDF5Writer.C"), ("HDF5Restart", "src/Utility/HDF5Restart.C"), ("DataExporter", "src/Utility/DataExporter.C")])
prop("D06", "Explicit and linear multistep integrators have their nominal order",
 """Each Runge-Kutta and linear multistep method has coefficients consistent with its nominal order and advances any linear ODE system by exactly the method's recurrence, with embedded error estimates accordingly.""",
 ["inputs", "configurations"], "All methods offered, ODE systems and step sizes.",
 "Tests integrate one ODE per method and compare final values loosely.",
 ["Apps/Utils/SIMExplicitRK.h", "Apps/Utils/SIMExplicitRKE.h", "Apps/Utils/SIMExplicitLMM.h", "Apps/Utils/SIMImplicitLMM.h", "Apps/Utils/TimeIntUtils.C"],
 [("SIMExplicitRK", "Apps/Utils/SIMExplicitRK.h"), ("SIMExplicitLMM", "Apps/Utils/SIMExplicitLMM.h")])
prop("D07", "Solution history keeps the right state at the right level",
 """Advancing, extracting and initializing the solution history shifts the stored states by exactly one level per step without aliasing or loss, and named fields passed between coupled simulators arrive at the consumer with the producer's current values.""",
 ["histories"], "All sequences of advance, initialization and dependency registration.",
 "Tests check one shift.",
 ["src/SIM/SIMsolution.C", "src/SIM/SIMdependency.C"],
 [("SIMsolution", "src/SIM/SIMsolution.C"), ("SIMdependency", "src/SIM/SIMdependency.C")])
prop("D08", "Simulation drivers run their phases in the documented order",
 """Stationary, transient, adaptive and coupled drivers invoke preprocessing, step advancing, solution, saving and convergence checks of every participating simulator exactly once per step in the documented order, stop on the first failure, and honour the sub-iteration limits.""",
 ["histories"], "All combinations of simulator outcomes per step and driver settings.",
 "No test drives failing or multi-step sequences.",
 ["Apps/Utils/SIMSolver.h", "Apps/Utils/SIMCoupled.h", "Apps/Utils/SIMCoupledSI.h", "Apps/Utils/SIMSolverTS.h", "Apps/Utils/SIMSolverAdap.h"],
 [("SIMSolver", "Apps/Utils/SIMSolver.h"), ("SIMCoupled", "Apps/Utils/SIMCoupled.h")])

prop("D09", "Eigenmodes and modal dynamics satisfy their equations",
 """The eigenvalue analysis of a model returns the requested number of modes in DOF order, which satisfy the generalized (or standard) eigenvalue problem and the constraints, with eigenvalues or signed frequencies; time histories computed in terms of the modes equal the exact recurrences of each mode and, when all modes are used, the solution of the full system, with Rayleigh or modal damping and after a restart; prescribed combinations of modes have the given amplitudes and frequencies.""",
 ["inputs", "histories"], "All models with constraints, matrix formats, solution methods, numbers of modes, damping, loads, restarts.",
 "The tests do not run eigenvalue analyses of models or modal time histories.",
 ["src/SIM/SIMmodal.C", "src/SIM/EigenModeSIM.C", "src/SIM/SIMbase.C"],
 [("SIMmodal", "src/SIM/SIMmodal.C"), ("EigenModeSIM", "src/SIM/EigenModeSIM.C"), ("systemModes", "src/SIM/SIMbase.C")])

# Integrands, norms, adaptivity, input -------------------------------------------------------------
prop("E01", "Weak-form operators integrate the bilinear forms they name",
 """Each equal-order, div-compatible and Piola-mapped weak-form operator adds exactly the integration point contribution of its bilinear or linear form, for every number of dimensions, components, block arrangement and scaling.""",
 ["inputs"], "All basis function values, dimensions, component counts, block indices and scaling factors.",
 "Tests compare against one stored matrix per operator.",
 ["Apps/Utils/EqualOrderOperators.C", "Apps/Utils/CompatibleOperators.C", "Apps/Utils/PiolaOperators.C"],
 [("EqualOrderOperators", "Apps/Utils/EqualOrderOperators.C"), ("CompatibleOperators", "Apps/Utils/CompatibleOperators.C")])
prop("E02", "Element matrices assemble blocks and time-scheme combinations exactly",
 """The Newton matrix and right-hand-side of an element equal the documented combination of its blocks (basis-wise ordering, symmetric off-diagonal blocks) or of its mass, damping and stiffness matrices with the weights of the time integration scheme.""",
 ["inputs", "configurations"], "All block layouts, element matrices and scheme parameters.",
 "Tests check block placement for one layout.",
 ["src/ASM/BlockElmMats.C", "src/ASM/NewmarkMats.C", "src/ASM/HHTMats.C", "src/ASM/BDFMats.C", "src/ASM/ElmMats.C"],
 [("BlockElmMats", "src/ASM/BlockElmMats.C")])
prop("E05", "Norms and projections reduce element contributions exactly",
 """Global norms are the reduction of the element norms by the rule of each norm, element norms are stored for the right element and group, and an L2 projection reproduces every field in the projection space. Volumes and quantities obtained by extraction functions keep their sign and are not subjected to the final operation of the norms; point-wise ones are averaged over the volume of their support.""",
 ["inputs"], "All meshes, element values, norm groups and projected fields.",
 "Tests check printed values of one model.",
 ["src/ASM/GlbNorm.C", "src/ASM/GlbL2projector.C", "src/ASM/IntegrandBase.C"],
 [("GlbNorm", "src/ASM/GlbNorm.C"), ("GlbL2", "src/ASM/GlbL2projector.C")])
prop("E06", "Adaptive refinement selects the elements its criterion names",
 """Given element error indicators, the adaptive scheme marks exactly the elements (or functions) its threshold rule and percentage describe, stops at its stop criteria, and never marks when the criteria are already met. In the adaptive loop each mesh is the previous one refined in what was marked, and its solution, projections, norms and error estimates (primal and dual) are those of a model built afresh on that mesh; with solution transfer the solution of the old mesh is carried to the new one.""",
 ["inputs", "configurations", "histories"], "All error vectors, threshold rules, percentages and stop criteria; all sequences of refinements of all models and failures in them.",
 "No test covers the selection rules or runs the adaptive loop.",
 ["src/SIM/AdaptiveSetup.C", "src/SIM/AdaptiveSIM.C", "Apps/Utils/SIMSolverAdap.h"],
 [("AdaptiveSetup::calcRefinement", "src/SIM/AdaptiveSetup.C")])
prop("E07", "Program options take effect as given on command line and in input file",
 """Each recognised option in the input file or on the command line sets exactly its own setting, command line over input file, in any order, and unrecognised ones are left untouched.""",
 ["inputs", "configurations"], "All option lists and their orders.",
 "Tests parse one input file.",
 ["src/SIM/SIMoptions.C", "src/LinAlg/LinSolParams.C"],
 [("SIMoptions::parse", "src/SIM/SIMoptions.C")])
prop("E08", "The model described in the input file is the model analysed",
 """The patches, topology sets, boundary conditions, loads, initial conditions and geometry operations given in the XML input file are the ones of the analysis: each condition constrains or loads exactly the degrees of freedom and boundary entities of the set it names with the value it gives, each geometry operation acts once on each patch of its range, and the default geometry is the requested one.""",
 ["inputs", "configurations"], "All 1D, 2D and 3D models with any sets, conditions, value types and patch ranges.",
 "Tests read a handful of input files with one condition each.",
 ["src/SIM/SIMinput.C", "src/SIM/SIM1D.C", "src/SIM/SIM2D.C", "src/SIM/SIM3D.C", "src/SIM/SIMbase.C", "src/SIM/ModelGenerator.C"],
 [("SIMinput::parse", "src/SIM/SIMinput.C"), ("SIM2D::parseBCTag", "src/SIM/SIM2D.C"), ("ModelGenerator", "src/SIM/ModelGenerator.C")])

prop("E09", "Results written at requested points are the solution's",
 """Every result point, line, node, element or grid requested in the input yields one output record in the given order, labelled with the point or global node/element number it belongs to, whose values are the primary solution, velocity, acceleration, secondary solution, exact solution and reaction forces at that location and time; nodal dumps of the whole solution, the node and element lists and reaction force tables list each entity once with its own values.""",
 ["inputs", "configurations"], "All requests on models with any number of patches, fields and steps.",
 "No test compares the text output of a multi-patch model with its solution.",
 ["src/SIM/SIMoutput.C", "src/SIM/SIMoutput.h"],
 [("SIMoutput::dumpResults", "src/SIM/SIMoutput.C"), ("SIMoutput::saveResults", "src/SIM/SIMoutput.C"), ("SIMoutput::preprocessResPtGroup", "src/SIM/SIMoutput.C")])
prop("E10", "Dual functions extract the resultants and point values they name",
 """Each dual (extraction) function for a cross section is the unit translation or rotation in the local axes of the section, decaying linearly over its depth and confined to its domain; one for a point is the field of the strain component it names, confined to the box or the elements around that point. The functions given in the input are those constructed, their depth is halved with the refinements down to the minimum stated, and the weighted sum of them is the dual solution.""",
 ["inputs", "configurations"], "All sections, normals, components, points and refinement levels, in two and three dimensions.",
 "No test constructs a dual function.",
 ["src/ASM/DualField.C", "src/SIM/FunctionSum.C", "src/SIM/SIMinput.C"],
 [("DualRealFunc", "src/ASM/DualField.C"), ("FunctionSum", "src/SIM/FunctionSum.C"), ("SIMinput::parseDualTag", "src/SIM/SIMinput.C")])
prop("E11", "Visualization output holds the model and its results",
 """The visualization output of each step holds the active elements of each active patch (or one grid of them all, when merging is requested), and for each of them the boundary conditions, primary, secondary, projected and exact solution, element results, functions, modes and numbers, each named after the field, referring to the right grid, step and time, of the size of that grid, with the values of the solution there, and with result and block identifiers that are used only once.""",
 ["inputs", "configurations", "histories"], "All models with any number of patches, fields, inactive elements and merging of grids.",
 "No test writes visualization output, and the library it is written with is optional.",
 ["src/SIM/SIMoutput.C", "src/SIM/SIMoutput.h", "src/Utility/ElementBlock.C", "src/SIM/SIMbase.C"],
 [("SIMoutput::writeGlvS1", "src/SIM/SIMoutput.C"), ("SIMoutput::writeGlvG", "src/SIM/SIMoutput.C"), ("SIMoutput::writeGlvN", "src/SIM/SIMoutput.C")])
