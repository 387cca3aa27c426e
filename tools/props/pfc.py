I, H, C, G = "inputs", "histories", "configurations", "programs"
SAMPLED = "Sampled search, not exhaustive: "

prop("P01", "Miller indices, cells and reciprocal lattices obey crystal geometry",
     "EquivalentMiller lists every signed permutation of a Miller index exactly once, NoPermutations every choice of signs exactly once, and NumEquivalent2D/3D give the number of signed permutations; other dimensions are refused. The volume of a cell is positive, its reciprocal cell satisfies M^T C = 2 pi I, HKLVector is the matching combination of reciprocal vectors, and CellChange and ChangeHKLVector are the first order changes under a strain. SC2D, SC3D, FCC and BCC have the volume, the nearest neighbours and the symmetry of their names. CubicUnitCellDensity is gcd(h,k,l)/sqrt(h^2+k^2+l^2) for all non-zero indices. Inputs are not changed.",
     [I], "all Miller indices, cells (left and right handed), strains, lattice constants, in 2D and 3D",
     "Tests list a handful of indices without repeated or zero entries.",
     ["pfc/miller.go", "pfc/lattice.go"],
     [("EquivalentMiller, NumEquivalent2D, NumEquivalent3D", "pfc/miller.go"), ("Volume, Reciprocal, HKLVector, CellChange", "pfc/lattice.go")],
     SAMPLED + "indices up to 5 in size; Triangular2D is a known finding (its vectors span a square lattice).",
     "property-based testing: enumeration oracle, algebraic identities, finite differences")

prop("P02", "Reciprocal space solver, mode densities and elastic matching are consistent",
     "The Gauss-Legendre rules on squares and cubes are exact for polynomials up to degree 2n-1 per axis. A mode density is the sum of cos(k.r) over the equivalent reciprocal vectors and the unit cell integral of a product of modes counts the zero-sum tuples of their vectors. Solve returns amplitudes at a local minimum whose reported energy is the energy polynomial at those amplitudes, no higher than zero and no higher than at any start point the explorer offers; explorers offer each sign combination once. The elastic weights are derivatives of the strain energy, MatchElasticProp reports the property of its fit and reaches achievable targets for any number of modes, PeakWidths inverts it. IdealMix evaluates its polynomial and its derivative.",
     [I, C], "all lattices, mode sets, Miller indices, ideal energies, starting points, target properties",
     "Tests solve two fixed crystals.",
     ["pfc/mode_solver.go", "pfc/quadrature.go", "pfc/ideal.go", "pfc/initialGuessExplorer.go"],
     [("Solve, UnitcellIntegral", "pfc/mode_solver.go"), ("MatchElasticProp, PeakWidths", "pfc/mode_solver.go")],
     SAMPLED + "up to three modes; few cases in 3D since integrals are dear.",
     "property-based testing: exact references, invariants of the minimiser, inverse relations")

prop("P03", "Crystal seeds and grain boundaries are built where they should be",
     "CornersScaledCrd are the scaled coordinates of the corners of the box. The Gaussian and circle kernels have the documented profile, cutoff and area. BuildCrystal places a copy of the kernel at every atom of the periodic lattice in the domain and nothing else. TiltGB fills the lower half along x with the pattern turned by plus half the tilt angle and the upper half by minus half, up to one node of rounding, and is refused in 3D.",
     [I, C], "rectangular and primitive cells with any basis of atoms, domain sizes, kernels, angles",
     "Tests build one crystal and look at the maximum.",
     ["pfc/periodicFieldInit.go"],
     [("BuildCrystal, TiltGB, CornersScaledCrd", "pfc/periodicFieldInit.go")],
     SAMPLED + "nodes reached by atoms whose kernel extends below zero are not judged (known finding: truncation towards zero).",
     "property-based testing: differential against a direct evaluation at every node")

prop("P04", "Correlation functions follow their peaks and the phase mixing rule",
     "A reciprocal space pair correlation function is the largest of its damped Gaussian peaks at every k; SquareLattice2D and TriangularLattice2D put peaks at the reciprocal lattice distances. Indicator is zero, one or the documented smooth step, and its derivative matches. TwoPhaseCorrFunc combines its two correlation functions with the composition dependent weight, in real space and in Fourier space alike, without changing its input, and refuses anything but two functions.",
     [I, C], "all wave numbers, peaks, temperatures, compositions, fields and domains",
     "Tests evaluate single points.",
     ["pfc/pairCorrelation.go", "pfc/twoPhaseCorrFunc.go"],
     [("Eval", "pfc/pairCorrelation.go"), ("Evaluate, EvaluateFT", "pfc/twoPhaseCorrFunc.go")],
     SAMPLED + "fields on domains of up to a few dozen nodes.",
     "property-based testing: differential against reference formulas")
