prop('X06', 'Shared sub-expressions are defined once, before use and under their own name',
     'In the source generated for any expression, every shared sub-expression that is referenced is defined exactly once, before its first use, under the name by which it is referenced, with the value of the sub-expression it stands for. Two sub-expressions share a definition only if they are the same expression: the key they are identified by distinguishes different expressions, and every leaf prints a text that identifies it.',
     ['programs', 'inputs'], 'every tree and every dependency shape among its shared sub-expressions',
     'Ordering and aliasing faults need particular sharing patterns (nested, diamond-shaped or repeated sub-expressions) and surface only in the text handed to the compiler.',
     ['src/ASTResolver.cpp', 'AmpGen/ASTResolver.h', 'src/CompiledExpressionBase.cpp', 'src/Expression.cpp', 'AmpGen/Expression.h'],
     [('sub-expression collection and ordering', 'src/ASTResolver.cpp: getOrderedSubExpressions'), ('definition emission', 'src/CompiledExpressionBase.cpp: addDependentExpressions'), ('keys', 'src/Expression.cpp: SubTree, hash')],
     'abstract interpretation of the resolver and emitter over enumerated symbolic dependency shapes; emitted definitions parsed and checked for def-before-use and single definition',
     'dependency shapes up to 4 shared sub-expressions; hash collisions of std::hash excluded')
prop('X07', 'Entry points of a compiled function forward to it faithfully',
     'The entry points generated with a compiled function agree with it: the batch entry point evaluates events 0 to N-1, passes the parameters unchanged, and for event i uses the event data at i*eventSize and stores at output i*cacheSize; wrappers with built-in parameters and python wrappers forward exactly the arguments of the function they wrap, in order; the signature numbers arguments in order; and linking looks up exactly the symbols that were emitted under the same options and reports success only if all were found.',
     ['inputs', 'programs', 'configurations'], 'every number of events, stride, argument list and option combination',
     'The entry points exist only as text assembled at run time; the test-suite compiles none of the batch or wrapper variants.',
     ['src/CompiledExpressionBase.cpp', 'AmpGen/CompiledExpression.h', 'AmpGen/CompiledExpressionBase.h'],
     [('batch loop', 'src/CompiledExpressionBase.cpp: compileBatch'), ('wrappers', 'src/CompiledExpressionBase.cpp: compileWithParameters, to_stream'), ('link', 'AmpGen/CompiledExpression.h: link')],
     'abstract interpretation of the emitters to string terms; emitted loops and calls parsed, index terms compared in normal form; symbol tables of emitter and linker compared per option',
     'texts of a shape the parser does not know are undecided')
prop('X08', 'Failing to build or load generated code is never presented as success',
     'A library that cannot be opened is never searched for symbols; a missing symbol leaves the function unlinked and gives failure; a compiler that cannot be started, is killed or exits with an error makes the build fail; no failed build or link is reported as success; the child process that should have become the compiler never returns into the library; and the compiler is invoked with the chosen executable, the source and the object to be produced.',
     ['faults', 'configurations'], 'every point at which opening, looking up, starting, waiting or compiling can fail',
     'Needs the loader, the process table or the compiler to fail at one particular point; tests only ever see a working toolchain.',
     ['AmpGen/DynamicFCN.h', 'AmpGen/CompiledExpression.h', 'src/CompilerWrapper.cpp'],
     [('symbol loading', 'AmpGen/DynamicFCN.h: set'), ('linking', 'AmpGen/CompiledExpression.h: link'), ('compiler driver', 'src/CompilerWrapper.cpp: compile, compileSource')],
     'abstract interpretation of loader, linker and compiler driver once per fault point, each system call modelled as failing in turn; resulting status and state compared with the required ones',
     'an exception counts as reporting the failure; the fault is one of those listed')
prop('L01', 'Kinematic factors of resonance shapes have their defining form and normalisation',
     'The building blocks of resonance shapes equal their definitions for every kinematic argument: the squared break-up momentum is lambda(s,m1^2,m2^2)/(4s); the Blatt-Weisskopf barriers for L=0..4 are 1 at unit argument and the relative barriers are 1 at their reference momentum; the running width equals the nominal width at the nominal mass, scales with phase space and relative barrier, and vanishes below threshold; the Breit-Wigner normalisation, polynomial, coupling and phase-space factors have their stated forms.',
     ['inputs'], 'every s, mass, width, radius and orbital angular momentum 0..4',
     'Errors show up only for one orbital angular momentum or away from the reference point; the tests evaluate none of these functions for L>1.',
     ['src/Lineshapes.cpp', 'AmpGen/Lineshapes.h', 'src/Lineshapes', 'AmpGen/CoupledChannel.h'],
     [('barriers, width, normalisation', 'src/Lineshapes.cpp: Q2, BlattWeisskopf, BlattWeisskopf_Norm, BL, width, kFactor, pol'), ('dispersive phase space', 'src/Lineshapes/CoupledChannel.cpp')],
     'abstract interpretation of each factor to a term over its arguments, equality with the definition decided by rational normal form; a difference is certified by a separating valuation of the two terms',
     'exact arithmetic; integer L from 0 to 4')
prop('L02', 'Every resonance shape is the documented function of its inputs and parameters',
     'Each registered resonance shape denotes its documented function of the invariant masses, orbital angular momentum and named parameters, for every option of the shape (form-factor conventions, channels, parameter sets), uses the parameters under their documented names with the properties of the named particle as defaults, and shapes asked for by particle give the same function as when asked for by invariant masses; a request by name and option reaches exactly the shape of that name with that option.',
     ['inputs', 'configurations'], 'every s, s1, s2, L and parameter value; every documented option of the shape',
     'The shapes are built as expressions and compiled at run time; the tests evaluate three of them at a handful of points with default options.',
     ['src/Lineshapes', 'src/Lineshapes.cpp', 'AmpGen/Lineshapes.h', 'AmpGen/Factory.h'],
     [('shapes', 'src/Lineshapes/*.cpp: DEFINE_LINESHAPE, DEFINE_GENERIC_SHAPE'), ('dispatch', 'src/Lineshapes.cpp: Lineshape::Factory::get')],
     'abstract interpretation of every shape per option to a term over s, s1, s2 and parameters, compared with the documented formula in normal form; a difference is certified by a separating valuation of the two terms',
     'interpolation and integration nodes are uninterpreted; K-matrix shapes are treated separately')
prop('T01', 'Tensor operations denote the index expressions they are written as',
     'Tensors have row-major addressing in which coordinates and linear index are inverse to each other; sums, differences, scalings, negation and conjugation act element by element; a product of indexed tensors sums exactly over the repeated indices, with the metric (-,-,-,+) whenever a repeated index is upper on one side and lower on the other, and leaves the free indices in order; a sum of indexed tensors matches elements by index, not by position; reordering permutes the slots as asked; full contraction applies the metric to every slot; a symmetrised tensor is symmetric; and the inverse of a square matrix times the matrix is the identity.',
     ['inputs'], 'every tensor of every shape and content, every assignment of indices',
     'The tests multiply one 2x3 by one 3x2 matrix and invert one matrix: metric signs, index orders, higher ranks and symmetrised storage are never exercised together.',
     ['src/Tensor.cpp', 'AmpGen/Tensor.h'],
     [('addressing', 'src/Tensor.cpp: index_to_coordinates, coordinates_to_index'), ('contraction', 'src/Tensor.cpp: operator*(TensorProxy,TensorProxy), dot'), ('indexed sum, symmetry, reorder', 'src/Tensor.cpp: operator+(TensorProxy,TensorProxy), imposeSymmetry, TensorProxy::reorder'), ('inverse', 'src/Tensor.cpp: Invert')],
     'abstract interpretation of the tensor code on tensors of distinct symbols, every element of the result compared with the index expression in normal form',
     'ranks 0 to 4, extents up to 4 (inverse up to 3x3 quick, 4x4 thorough); element values symbolic; exact arithmetic')
prop('L03', 'K-matrix amplitudes solve the K-matrix equations',
     'Every K-matrix shape is the amplitude its K-matrix defines: the K-matrix is the sum over poles of g_i g_j/(m^2-s) plus the stated non-resonant part times the Adler factor and is symmetric; the propagator is the inverse of (1 - i K rho) with phase space on the right index; scattering, production, pole and P-vector amplitudes contract that propagator with the K-matrix, pole couplings or production vector of the channel asked for; each pole and each non-resonant term enters exactly once; and the two-channel shapes agree with the closed-form solution of the same equation.',
     ['inputs', 'configurations'], 'every s, coupling, pole mass, and every channel, pole and term option',
     'Only unitarity of the diagonal element at a few points could be sampled; wrong channel indices and doubly counted terms need a specific option and several poles.',
     ['src/Lineshapes/kMatrix.cpp', 'src/Lineshapes/kMatrixSimple.cpp', 'src/Lineshapes/GenericKmatrix.cpp', 'src/Lineshapes/FOCUS.cpp', 'src/Lineshapes/PALANO.cpp', 'AmpGen/kMatrix.h'],
     [('K-matrix and propagator', 'src/Lineshapes/kMatrix.cpp: constructKMatrix, getPropagator'), ('shapes', 'src/Lineshapes: kMatrix, kMatrix_fast, GenericKmatrix, FOCUS, PALANO')],
     'abstract interpretation of each shape and option with the matrix inverse left uninterpreted; the matrix handed to the inverse and the amplitude formed from it compared with the K-matrix equations in normal form',
     'matrix inversion itself is T01; channel and pole counts of the registered shapes, generic shape up to 3 poles and channels')
prop('T02', 'Rotations and boosts represent the Lorentz group on vectors and spinors',
     'The gamma, Pauli, spin and flavour matrices satisfy their defining algebra with the metric (-,-,-,+). A rotation or boost acts on four-vectors as the rotation by the stated angle about the stated axis, or the boost with the stated gamma along it; on spinors and bispinors it acts as the matching representation, so that transforming a spinor bilinear and transforming the vector it forms agree; the inverse of a transformation undoes it in every representation; and a sequence of transformations acts as its members applied in order, in every representation, an empty sequence as the identity of that representation.',
     ['inputs', 'programs'], 'every angle, boost, axis, representation and sequence of transformations',
     'A sign or order that is wrong only in one representation, for non-commuting members or for a general axis is invisible to tests along the coordinate axes.',
     ['src/Transform.cpp', 'AmpGen/Transform.h', 'src/DiracMatrices.cpp', 'AmpGen/DiracMatrices.h'],
     [('matrices', 'src/DiracMatrices.cpp: Gamma, Sigma, Sigma4, S03, SU3'), ('transformations', 'src/Transform.cpp: Transform::operator(), inverse'), ('sequences', 'src/Transform.cpp: TransformSequence::operator(), inverse, buildCache, push_back')],
     'abstract interpretation of each constructor and transformation to matrices of terms; equality with the closed form under the constraints on axis and boost decided by exact identity testing over a prime field, a difference certified by a real valuation',
     'exact arithmetic; unit axes, gamma at least 1; sequences up to 4 members')
prop('T03', 'Wigner functions, couplings and helicity amplitudes have their defining values',
     'Factorials, binomials, the small Wigner functions, Clebsch-Gordan coefficients and recoupling constants equal their definitions for every angular momentum and projection, and vanish where the selection rules say so. The basis spinors and vectors are orthonormal eigenstates of the spin along the stated axis; Wigner D combines the small function with the phases of the azimuthal angle; the transformation to the helicity frame takes the given momentum to the stated axis at rest; and the helicity amplitude of a decay chain is the sum over the intermediate helicities of recoupling constant, Wigner function and the amplitudes of the daughters, each evaluated with its own helicity and in its own frame, ending in the polarisation state of the final-state particle.',
     ['inputs', 'programs'], 'every angular momentum, projection, momentum and decay chain',
     'Phases and selection rules fail for particular projections or for the second daughter only; the tests check a handful of small-spin values.',
     ['src/Wigner.cpp', 'AmpGen/Wigner.h'],
     [('coefficients', 'src/Wigner.cpp: fact, binomial, CG, wigner_d, wigner_D'), ('frames and bases', 'src/Wigner.cpp: wickTransform, basisSpinor, basisVector, angCoordinates'), ('amplitudes', 'src/Wigner.cpp: recouplingConstants, calculate_recoupling_constants, helicityAmplitude')],
     'abstract interpretation of each function per quantum-number assignment; coefficient values compared exactly, amplitudes as sums of products of uninterpreted daughter amplitudes, frames by exact identity testing over a prime field',
     'angular momenta up to 5/2 (quick), daughters of spin 0 to 1; uninterpreted sub-amplitudes')
prop('T04', 'Spin vertices and projectors are the covariant couplings they are named for',
     'The orbital operators and spin projectors have their documented form and features: orbital momenta are transverse to the total momentum, the D-wave one symmetric and traceless; the spin-1 and spin-1/2 projectors are idempotent, the fermion and antifermion projectors complementary. Every vertex gives the covariant coupling of the stated spins and orbital momentum: it is linear in the currents of both daughters (also of a scalar one), uses the momentum transverse to the decaying particle, Lorentz indices are contracted with the metric and spinor indices without, results for spin-2 are built symmetric and traceless, fermion vertices are projected onto the (anti)fermion state of the decaying momentum, and antifermion vertices mirror the fermion ones.',
     ['inputs'], 'every momentum, momentum transfer and pair of daughter currents, for every vertex',
     'No test evaluates a vertex: an index, sign or projector that is wrong in one vertex only affects decays with those spins.',
     ['src/Vertex.cpp', 'src/FermionVertices.cpp', 'AmpGen/Vertex.h'],
     [('orbital operators and projectors', 'src/Vertex.cpp: Orbital_PWave, Orbital_DWave, Spin1Projector, Spin2Projector, Spin1hProjector, Spin3hProjector, gamma_twiddle, slash, Bar'), ('vertices', 'src/Vertex.cpp, src/FermionVertices.cpp: DEFINE_VERTEX'), ('three-body factors', 'src/Vertex.cpp: getSpinFactorNBody')],
     'abstract interpretation of operators and all 78 vertices to tensors of terms in momenta and currents; equality with the index expression decided on shell by exact identity testing over a prime field, a difference certified by a real valuation',
     'exact arithmetic; time-like total momentum; complex currents')
prop('P01', 'Particle properties, antiparticles and quark content are mutually consistent',
     'Every particle entry keeps the quantum numbers it was read with and every query about it follows from them: half-integer spin is 2J, stability and kind (fermion, boson, lepton, photon) follow from the quantum numbers, and the printed and spin labels are those of the kind. The antiparticle of an entry has the opposite charge and identifier, the same mass, width and spin, parity reversed exactly for fermions, and conjugate quark content; conjugating twice gives the particle back; self-conjugate states have no distinct antiparticle; names of antiparticles follow the format of the entry and looking up either name or identifier in the list gives the same entry. Quark content is a set of alternatives whose sum, conjugate and comparison act on net quark numbers.',
     ['inputs', 'histories'], 'every entry of a particle table and every combination of charge, spin, parity, quark content and antiparticle format',
     'The tests look at a handful of particles; a parity, label or name wrong for one class of states (antibaryons, self-conjugate states, states with alternatives) stays unnoticed.',
     ['src/ParticleProperties.cpp', 'src/ParticlePropertiesList.cpp', 'src/QuarkContent.cpp', 'AmpGen/ParticleProperties.h', 'AmpGen/QuarkContent.h'],
     [('entry and antiparticle', 'src/ParticleProperties.cpp: ParticleProperties, antiThis, antiQuarks, hasDistinctAnti, name, spinName'), ('list', 'src/ParticlePropertiesList.cpp: get, addParticle, makeMappings'), ('quark content', 'src/QuarkContent.cpp')],
     'abstract interpretation of constructors and queries on entries enumerating every combination of quantum numbers the code distinguishes, results compared with the definition; the list operations on small tables',
     'numbers as written in a table line; exact arithmetic')
prop('P02', 'Decay descriptors and decay trees determine each other',
     'A decay descriptor denotes one decay tree whatever the order of its decay products: particles, orbital and spin configuration, lineshape, vertex and other modifiers are the written ones or the stated defaults, decay products are put in the canonical order, and final-state indices are a bijection onto the requested final state or the tree is reported unusable. Printing a tree and reading the text gives the same tree, and different trees print differently. Conjugation conjugates every state below (and, if asked, including) the head and nothing else; the orderings of identical particles are exactly the permutations that exchange them; matching, expansion, cloning and the quasi-stable tree follow their definitions and leave the operands untouched.',
     ['inputs', 'programs'], 'every decay tree, order of decay products, modifier and final state',
     'The tests read two descriptors; losing a modifier, an index or an order needs a particular nesting, antiparticle head or pair of identical particles.',
     ['src/Particle.cpp', 'AmpGen/Particle.h'],
     [('reading', 'src/Particle.cpp: Particle::Particle, parseModifier, pdgLookup, sortDaughters'), ('printing', 'src/Particle.cpp: modifierString, makeUniqueString'), ('tree operations', 'src/Particle.cpp: conj, expand, matches, quasiStableTree, identicalDaughterOrderings, setOrdering, clone, operator<')],
     'abstract interpretation of constructors and tree operations on an enumerated family of decay trees over a small particle universe, in every order of decay products; trees compared structurally with the tree the descriptor denotes',
     'trees up to depth 3 and four final-state particles over 24 states covering every distinction the code makes')
prop('P03', 'Quantum numbers of decays follow the selection rules',
     'The orbital angular momenta and spin-orbit couplings offered for a two-body decay are exactly those allowed by the triangle rule for the spins, and by parity (-1)^L if parity is to be conserved; the sign of a decay chain under parity is the product of (-1)^(J-L-s1-s2) over its two-body vertices, C the product over the decay products and CP their product; a decay is weak exactly when it changes quark flavour; quasi-stability follows from the width; a polarisation state is accepted exactly when it is a projection of the spin, and a set of states is given to head and final state in order; a permutation of identical particles needs size-minus-cycles exchanges and carries the sign of the permutation for fermions only.',
     ['inputs'], 'every combination of spins, parities, orbital momenta, flavours and permutations',
     'Each rule fails for particular spins or a particular permutation (three identical fermions, spin 3/2, negative projections) that no test contains.',
     ['src/Particle.cpp', 'src/Utilities.cpp', 'AmpGen/Particle.h'],
     [('selection rules', 'src/Particle.cpp: orbitalRange, spinOrbitCouplings, conservesParity, finalStateParity, C, CP, isWeakDecay, isQuasiStable'), ('polarisation states', 'src/Particle.cpp: setPolarisationState'), ('permutations', 'src/Utilities.cpp: minSwaps')],
     'abstract interpretation of each query on decays whose quantum numbers run over all combinations up to the bound, compared with the selection rule',
     'spins up to 2 (thorough: 3), up to four (thorough: five) identical particles')
prop('P04', 'The amplitude of a decay chain is assembled from its propagators and spin states',
     'The momentum of a state is the sum over its final-state particles, the momentum transfer the difference of its two decay products, the squared mass the invariant square. The propagator of a chain is the product over its states of the lineshape asked for; its spin tensor applies, at every decay, the vertex named by the spins, orbital momentum and spin configuration to the momenta and spin tensors of that decay. The amplitude is the sum over all orderings of identical particles of propagator times spin factor, with the sign of the permutation for fermions, divided by the square root of their number; incoherent, unsymmetrised and spinless variants as stated; the spin factor contracts the spin tensor with the conjugate state of the decaying particle in the requested polarisation. External spin states are the rest-frame states boosted (Dirac) or rotated into the helicity frame and boosted (Weyl), for every direction including along and against the z axis and at rest.',
     ['inputs', 'programs'], 'every decay chain, final-state ordering, modifier, polarisation state and momentum',
     'Tests compare no assembled amplitude with its definition; identical fermions, incoherent sums, antiparticle spinors or a momentum against the z axis each need a particular chain.',
     ['src/Particle.cpp', 'AmpGen/Particle.h'],
     [('kinematics', 'src/Particle.cpp: P, Q, massSq'), ('assembly', 'src/Particle.cpp: propagator, spinTensor, getExpression'), ('external states', 'src/Particle.cpp: externalSpinTensor')],
     'abstract interpretation of each method on decay trees with lineshapes, vertices and sub-amplitudes uninterpreted; amplitudes compared in normal form, external states on shell by exact identity testing over a prime field per special-cased direction; differences certified by a separating valuation',
     'exact arithmetic; trees up to four final-state particles; momenta within the cut of the code of a special-cased direction count as that direction')
prop('D01', 'Parameter sets behave as ordered dictionaries and lines define what they say',
     'A parameter holds exactly the name, flag, value, step and limits it is given; each setter changes only what it names and resetToInit restores the start. After any history of add, addOrGet, unregister and rename a parameter set lists each name once in insertion order and finds precisely the listed parameters by name and by position, returning null for anything else. set() copies values by name, the mapping used by the minimiser writes element i to the i-th mapped parameter. A text line defines exactly the (real or complex) parameters it describes or none; a file additionally defines its expressions and missing antiparticle masses, widths and radii. A link to a parameter or expression has the same value in place and compiled.',
     ['inputs', 'histories'], 'every history of operations on a parameter set and every form of parameter line',
     'Tests add a few distinct parameters; duplicates, removal followed by look-up, renaming onto an existing name, missing names and malformed lines are histories no test walks through.',
     ['src/MinuitParameterSet.cpp', 'src/MinuitParameter.cpp', 'src/MinuitExpression.cpp', 'src/ExpressionParser.cpp', 'AmpGen/MinuitParameter.h'],
     [('histories', 'src/MinuitParameterSet.cpp: addToEnd, unregister, rename, find, at, operator[]'), ('lines', 'src/MinuitParameterSet.cpp: tryParameter, loadFromStream'), ('parameters', 'src/MinuitParameter.cpp'), ('links', 'src/ExpressionParser.cpp: MinuitParameterLink')],
     'abstract interpretation of every sequence of operations up to a bound on a set with symbolic parameter values, compared after each step through the public queries with an ordered dictionary; the line parser abstracted on every line form',
     'names stand for equivalence classes; histories up to three (quick) or four (thorough) operations; the expression grammar itself is taken as given')
prop('P05', 'Amplitude rules expand to every decay chain with the product of its couplings',
     'Every coupling of the parameter set whose real and imaginary part (or expression) is present becomes one rule of its head, named after its decay and prefix; nothing else does. The value of a coupling and the expression compiled for it agree in cartesian and polar coordinates, radians and degrees; a total coupling is the product of its couplings, is fixed only if all its parameters are, and contains a label if any coupling does. Expanding a rule yields, for every choice of a rule for every unexpanded state (identical states included), one amplitude with exactly the couplings used. An event type receives each expanded amplitude of the asked-for prefix that fits its final state once. AddCPConjugate adds, for each coupling of a particle with a distinct antiparticle and each particle property, the conjugate linked to the original with the CP sign, unless forbidden or already present.',
     ['inputs', 'programs'], 'every rule set, coordinate convention and event type',
     'Tests parse a handful of models; repeated resonances, nested modifiers, prefixes, polar phases in degrees and CP signs need particular models.',
     ['src/AmplitudeRules.cpp', 'src/AddCPConjugate.cpp', 'AmpGen/AmplitudeRules.h', 'src/Particle.cpp'],
     [('couplings', 'src/AmplitudeRules.cpp: Coupling, TotalCoupling'), ('expansion', 'src/AmplitudeRules.cpp: AmplitudeRules::expand, getMatchingRules'), ('conjugation', 'src/AddCPConjugate.cpp')],
     'abstract interpretation of the rule machinery on parameter sets with symbolic values; expansions compared as multisets of (tree, couplings) with the cartesian product over rules, coupling values in normal form',
     'small particle table; rule sets of up to eight rules; CP signs are taken from Particle::CP, which P03 decides')
prop('U01', 'Text utilities mean what their names say on every text',
     'split separates at the delimiters and drops (only) blank pieces when asked to; findAll and find_next_of find every, respectively the first, occurrence; replaceAll replaces every occurrence of the original text once and terminates; trimming removes blanks from the ends only; getItems splits a bracketed tree at its outermost level and rejects unbalanced brackets; a wildcard matches any text in its place; environment variables are substituted without touching the rest of a path; text is converted to a number or truth value exactly when all of it is one, and a failure is never forgotten; editDistance is the Levenshtein distance, FNV1a_hash the FNV-1a hash, nCr lists every choice once and all_combinations the cartesian product; formatted text is complete, whatever its length; reading a file hands over each of its lines once, in order, without carriage returns, blank lines and comments; parallel_sort sorts and parallel_accumulate adds each entry once.',
     ['inputs'], 'every text, delimiter set, pattern and word',
     'Tests touch three of these helpers on one text each; overlapping, repeated, empty or nested occurrences need particular texts, and every decay descriptor, option and parameter line passes through them.',
     ['src/Utilities.cpp', 'AmpGen/Utilities.h'],
     [('texts', 'src/Utilities.cpp: split, findAll, replaceAll, getItems, stringMatchesWildcard, expandGlobals, trim'), ('words', 'src/Utilities.cpp: lexical_cast'), ('combinatorics', 'AmpGen/Utilities.h: nCr, all_combinations')],
     'abstract interpretation of each helper on every text up to a bound over an alphabet of one representative per character class of the call, compared with the definition',
     'texts up to four to six (thorough: seven) characters over alphabets of two to four character classes')
prop('D02', 'Options hold what the command line and files say, and named options read it',
     'A line of options splits at blanks into its words; quotes keep their blanks, a comment ends the line and nothing before it is lost, braces outside quotes are counted. After any sequence of options each key has the words that were set last, is listed once and in the order first seen, and a text without words changes nothing; keywords run their action instead. On a command line --key=value, --key value and --key set that option, everything else is a file to import, in order. An options file sets each of its lines, with a block in braces being one line. A named option is the converted words of its line if there is one, element by element, and its default otherwise.',
     ['inputs', 'histories'], 'every line of options, sequence of options, command line and options file',
     'The tests never parse an option; comments touching a word, overwritten keys, flags at the end of a command line and nested blocks are inputs users write.',
     ['src/OptionsParser.cpp', 'src/NamedParameter.cpp', 'AmpGen/NamedParameter.h', 'AmpGen/OptionsParser.h'],
     [('words', 'src/OptionsParser.cpp: makeParsedStrings'), ('options', 'src/OptionsParser.cpp: addArg, setCommandLineArgs, import, getInputOrdered'), ('named options', 'AmpGen/NamedParameter.h: NamedParameter')],
     'abstract interpretation of the tokeniser on every line up to a bound over the character classes of the code, of every sequence of options and of command lines and files up to a bound, compared with an ordered dictionary through the public queries',
     'lines up to five (thorough: six) characters over four classes; sequences up to three options; file contents are provided line by line')
prop('D03', 'Names of enumerators and units are read and written without loss',
     'Every enumerator is written as its name, and its name and its number are read as that enumerator; every other text, including the empty one, near misses and numbers without an enumerator, is read as Invalid. Conversion factors are those of the named unit relative to GeV, ns and mm.',
     ['inputs'], 'every enumerator and every word',
     'No test reads or writes most of the enumerations; the two lists (declaration and text) can disagree in order without any compile error.',
     ['AmpGen/enum.h', 'AmpGen/Units.h', 'src/Units.cpp', 'src/MinuitParameter.cpp', 'src/Particle.cpp', 'src/ExpressionParser.cpp', 'src/Lineshapes/GenericKmatrix.cpp'],
     [('words', 'AmpGen/enum.h: detail::parse, detail::to_string, complete_enum'), ('units', 'src/Units.cpp: to_double')],
     'abstract interpretation of parse and to_string for every enumeration on all enumerators taken from the declaration, on all near misses and on numbers around the range; factors compared exactly',
     'the words tried that are not names: every name with a character added, removed, doubled or its case changed, lists of names, numbers')
prop('L04', 'Splines and Pade approximants interpolate what they are given',
     'The curvatures of a spline solve the natural cubic-spline equations for its knots; its value between two knots is the cubic with the values and curvatures at both, for every number of knots and interval; knot i is the parameter of the name with suffix ::i. A Pade approximant of any degree equals the function at its nodes, is the ratio of the polynomials with its coefficients, and its compiled expression equals its direct value.',
     ['inputs', 'parameters'], 'all knot values, all ranges, all functions and all points',
     'No test evaluates a spline or an approximant away from a few points; a wrong coefficient in one row of the tridiagonal system shifts the curve by little.',
     ['src/Spline.cpp', 'src/Pade.cpp', 'AmpGen/Pade.h', 'AmpGen/Spline.h', 'src/Lineshapes/GSpline.cpp'],
     [('splines', 'src/Spline.cpp: SplineExpressionBase, transferSplines, Spline'), ('approximants', 'AmpGen/Pade.h: Pade; src/Pade.cpp: solve_ext')],
     'abstract interpretation of the construction with symbolic knot values, and the equations each result must satisfy decided by exact identity testing over a prime field with a separating valuation for each failure',
     'three to six knots, degrees one to three; at the very first knot the code as it stands takes the last interval: that single point is excluded')
prop('S01', 'Vector types compute lane by lane what the scalar code computes',
     'Each operation on vectors of events (arithmetic, comparison, masks, selection, elementary functions, fused multiply-add, gather, loading and storing, construction and element access) gives in every lane the result of the scalar operation on that lane, with and without the vector mathematics library, including equal operands and zeros; sums over lanes and all-of tests cover every lane, and sizes are rounded up to whole vectors. Complex numbers of vectors are complex arithmetic in each lane: the four operations with complex and real operands on either side, conjugate, modulus, exponential, logarithm, and the principal square root also for negative real numbers.',
     ['inputs'], 'all lane values, masks and operands',
     'A wrong lane, a swapped operand or the wrong branch shows up for particular values only, and the tests evaluate three vector functions at a single point.',
     ['AmpGen/simd/avx2d_types.h', 'AmpGen/simd/utils.h', 'AmpGen/Complex.h'],
     [('vectors', 'AmpGen/simd/avx2d_types.h: real_v and its operators'), ('helpers', 'AmpGen/simd/utils.h: all_of, sum_elements, store, aligned_size'), ('complex', 'AmpGen/Complex.h: Complex')],
     'abstract interpretation of every operation on symbolic lanes, with the instructions given their documented lane-wise meaning; each lane compared in normal form with the scalar operation, differences certified by a separating valuation',
     'AVX2 double precision (the instruction set of this build); NaN operands are not considered')
prop('S02', 'Compensated sums lose no rounding error and cubature rules are exact',
     'Adding a term to a compensated sum, by += or +, for scalars and vectors, keeps sum plus correction equal to the exact total to first order whichever of the two is larger, the value of the sum includes the correction, and the twice compensated sum is exact to second order. The cubature rule for a hyper-rectangle integrates every polynomial up to degree seven exactly in every dimension with an error estimate from a rule of degree five, divides the axis with the largest fourth difference, and does the same in its vector form; in one dimension the quadrature of the integrand is returned.',
     ['inputs'], 'all terms, magnitudes and orders of addition; all integrands up to the degree of the rule, regions and dimensions',
     'A lost correction or a wrong weight changes results in the last digits only, far below any tolerance in a test.',
     ['AmpGen/KahanSum.h', 'AmpGen/simd/integrate_fp.h', 'AmpGen/NumericalIntegration.h'],
     [('sums', 'AmpGen/KahanSum.h: KahanSum, KahanBabushkaKleinSum'), ('cubature', 'AmpGen/simd/integrate_fp.h: integrate_fp, integrate_fp_scalar, integrate_fp_constants'), ('integrals', 'AmpGen/NumericalIntegration.h: integrate')],
     'abstract interpretation with a fresh symbol for the rounding error of every addition (none where Fast2Sum is exact), leftover errors measured; the cubature rule abstracted as a linear form in the integrand and its moments compared exactly with those of the region',
     'rules up to four dimensions from the code, tables of weights up to fifteen; the adaptive subdivision itself is not covered')
prop('E01', 'Events: accessors and setters touch exactly what they name',
     'The invariant mass squared of one, two, three or a list of particles is that of their summed four-momentum; setting or swapping momenta, reordering, extending an event and setting weight, generator probability or index changes exactly the entries named; what was set is what is read. A Gaussian constraint is minus half the squared deviation of the named parameter from the mean in units of the width, both as given on its line or taken from the particle data.',
     ['inputs', 'parameters'], 'all momenta, positions, subsets and orders of particles',
     'No test touches most event accessors; a wrong stride or sign in one component shows up only for particular momenta.',
     ['src/Event.cpp', 'AmpGen/Event.h', 'src/ExtendLikelihoodBase.cpp'],
     [('events', 'src/Event.cpp: s, set, swap, reorder; AmpGen/Event.h'), ('constraints', 'src/ExtendLikelihoodBase.cpp: GaussianConstraint')],
     'abstract interpretation of each accessor on an event with one symbol per component; results compared in normal form and differences certified by a separating valuation',
     'five particles; positions inside the event')
prop('C01', 'The thread pool runs each task once, under lock discipline, and shuts down',
     'A pool of n has n workers; each queued task is run exactly once, in order, outside the lock; the queue and the stop flag are accessed under the lock only while workers run; workers wait when idle and leave only when the pool is stopped and drained; enqueue wakes a worker after queueing and returns the future of that very task, also when the pool is disabled; a stopped pool refuses tasks; shutdown wakes and joins every worker exactly once and can be followed by destruction.',
     ['schedules', 'histories'], 'all interleavings, queue contents and orders of enqueue, stop and destruction',
     'A missing lock, a lost wake-up or a second join depends on the schedule; no test uses the pool.',
     ['src/ThreadPool.cpp', 'AmpGen/ThreadPool.h'],
     [('workers', 'src/ThreadPool.cpp: ThreadPool, waitForStoppedThreads'), ('tasks', 'AmpGen/ThreadPool.h: enqueue')],
     'typestate and lockset analysis: the worker loop, enqueue and shutdown are abstracted on every abstract pool state (tasks queued, stopped, enabled) with lock scopes, waits, notifications, joins and task calls as effects, and the order and guards of the effects are checked',
     'queues of up to three tasks; mutexes, condition variables and packaged tasks behave as the standard says')
prop('N01', 'Compiled amplitudes agree with the expression to floating point accuracy',
     'The number a compiled expression returns differs from the exact value of the expression by no more than the rounding error of a stable evaluation, for every event inside the phase space.',
     ['inputs', 'parameters'], 'all events and parameters', 'Cancellation and overflow occur at particular kinematic points.',
     ['src/CompiledExpressionBase.cpp', 'AmpGen/CompiledExpression.h'], [('evaluation', 'AmpGen/CompiledExpression.h: operator()')],
     na='bounds on rounding errors depend on the optimiser flags of the run-time compiler and on runtime values of unbounded range; the exact meaning of emitted source is covered by X01')
prop('N02', 'Generated events follow the model density',
     'Events from the generator are independent draws from the density of the model, for every model and number of events.',
     ['inputs', 'histories'], 'all models, seeds and batch sizes', 'A wrong acceptance step shows as a small distortion.',
     ['AmpGen/Generator.h', 'AmpGen/TreePhaseSpace.h', 'src/TreePhaseSpace.cpp'], [('accept-reject', 'AmpGen/Generator.h: fillEvents')],
     na='a statement about distributions of runtime random numbers; needs ROOT, which is not installed, and no static argument bounds the maximum used in the accept-reject step')
prop('N03', 'Phase space generation is uniform and conserves four-momentum',
     'Events from PhaseSpace have flat density in phase space, conserve four-momentum and put every particle on its mass shell, for every allowed decay.',
     ['inputs'], 'all decays and random numbers', 'Only particular masses near threshold expose a wrong weight.',
     ['src/PhaseSpace.cpp', 'AmpGen/PhaseSpace.h'], [('generation', 'src/PhaseSpace.cpp: makeEvent')],
     na='uniformity is a property of a distribution of random draws; the ROOT random generator it draws from is not available here')
prop('N04', 'Fits converge to the minimum of the likelihood',
     'The minimiser finds the parameters that minimise the function it is given and reports their errors, for every likelihood with a unique minimum.',
     ['inputs', 'parameters'], 'all likelihoods and starting points', 'Convergence depends on the shape of the function at runtime.',
     ['src/Minimiser.cpp', 'src/FitResult.cpp'], [('minimisation', 'src/Minimiser.cpp: doFit')],
     na='convergence of an iterative numerical method (in an external library) on runtime functions cannot be bounded by an argument over the source')
prop('N05', 'Event files round-trip',
     'Events written to a ROOT file and read back have the same momenta, weights and branches, for every event type and list.',
     ['inputs', 'histories'], 'all event lists', 'No test writes a file.',
     ['src/EventList.cpp', 'src/EventListSIMD.cpp'], [('input and output', 'src/EventList.cpp: loadFromTree, tree')],
     na='the behaviour is that of ROOT trees and branch addresses, whose sources are not available in this environment')
prop('N06', 'Normalisation integrals are reproducible for any number of threads',
     'Amplitude normalisation integrals and likelihood sums do not depend on the number of OpenMP threads or vector width beyond rounding.',
     ['schedules', 'configurations'], 'all thread counts and vector widths', 'Tests run one configuration.',
     ['AmpGen/Integrator.h', 'src/Integrator.cpp', 'AmpGen/SumPDF.h'], [('sums', 'AmpGen/SumPDF.h: getVal')],
     na='the sizes of rounding differences between summation orders depend on runtime values; the error-free transformations that keep them small are covered by S02')
