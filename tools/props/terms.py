I, H, C, G = "inputs", "histories", "configurations", "programs"
SAMPLED = "Sampled search, not exhaustive: "

prop("C11", "Filters, transforms, penalties and Lagrange multipliers follow their formulas",
     "The Vandeven filter of order p (1 to 40) is 1 - I_x(p,p) on [0,1] (I is the regularised incomplete beta function), 1 at zero, 0 above one, never increasing; a modal filter multiplies every mode by its value at |f|*2/pi. BoundTransform maps the real line increasing and one to one onto (Min, Max) with zero in the middle, and Backward undoes Forward. Spectral viscosity damps a mode at rate Eps*Q(|f|)*|f|^Power with the documented Q. The negative value penalty is the derivative of A*(|x|^E - x^E) for all exponents, so zero for positive values. The volume conserving Lagrange multiplier is minus the integrated rate over the integrated indicator, measured on the last step, so that the integral of the field stays put from the third step on when the driving rate is constant. RealPartAsUint8 maps min to 0, max to 255, linearly and monotonically in between.",
     [I, H, C], "all orders, arguments, bounds, exponents, driving rates, indicators, time steps and steppers (Euler, RK4)",
     "Formulas over whole intervals and histories; tests sample a few points and odd exponents only.",
     ["pf/vandeven.go", "pf/boundTransform.go", "pf/spectralViscosity.go", "pf/negative_value_penalty.go", "pf/volumeConserving.go", "pf/util.go"],
     [("NewVandeven, Eval", "pf/vandeven.go"), ("Forward, Backward", "pf/boundTransform.go"), ("Construct, OnStepFinished", "pf/volumeConserving.go"), ("Construct", "pf/spectralViscosity.go")],
     SAMPLED + "reference formulas (incomplete beta function of gonum trusted); the multiplier is checked in small models over up to 8 steps.",
     "property-based testing: generated arguments and histories against reference formulas, round trips and metamorphic relations")

prop("C12", "Phase field crystal terms are derivatives of the energies they report",
     "The pair correlation term contributes -A C(|k|) n(k) (times -k^2 with Laplacian), implicitly or explicitly, where C(k) is the largest of the damped Gaussian peaks and k = 2 pi f; the ideal mixture term contributes A (n - C3 n^2/2 + C4 n^3/3), the linear part treated implicitly and the rest explicitly (mixed term), or all explicitly as a function. The energies reported by these terms are -A/2 sum_k C|n_k|^2/N and A sum (n^2/2 - C3 n^3/6 + C4 n^4/12); the terms are their functional derivatives, and calculating an energy leaves the field unchanged.",
     [I, C, G], "all density fields, domains, peaks, temperatures, prefactors, time steps",
     "Tests check single modes and one prefactor; consistency of energy and force is a relation between two pieces of code for every field.",
     ["pf/pairCorrelationTerm.go", "pfc/pairCorrelation.go", "pfc/ideal.go"],
     [("Construct, GetEnergy", "pf/pairCorrelationTerm.go"), ("ConstructLinear, ConstructNonLinear, GetEnergy", "pf/pairCorrelationTerm.go")],
     SAMPLED + "steps of the solver against a reference semi-implicit step with a direct DFT; energies against closed formulas and finite differences.",
     "property-based testing: differential against a reference step, metamorphic relation energy/derivative")

prop("C13", "The elastic driving force is minus the derivative of the relaxed elastic energy",
     "HomogeneousModulusLinElast changes a field x at rate A_ij H'(x)(eps_ij - misfit_ij H(x)), H(x) = 3x^2 - 2x^3, A = C:misfit, where eps is the strain in mechanical equilibrium of the current field, from the first step on, in 2D and 3D. It equals minus the derivative of the elastic energy that is left after relaxation, and a real field stays real on any domain.",
     [I, C, H], "all stable materials (2D: isotropic and cubic, no out of plane shear), misfit strains, fields, domains, histories of steps",
     "The tests check the sign and one symmetric field.",
     ["pf/homoLinElast.go", "elasticity/effectiveForce.go", "elasticity/linearElasticity.go"],
     [("Construct, OnStepFinished", "pf/homoLinElast.go")],
     SAMPLED + "sides up to 7; fields on even sides are band limited where the value is compared.",
     "property-based testing: differential against an independent Fourier elasticity solver, energy derivative")

prop("C14", "The dimer stepper follows the shrinking dimer dynamics and finds saddle points",
     "One step of SDD moves all fields together by x_new = x + dt(I - 2vv^T)(alpha N(x - lv/2) + (1-alpha) N(x + lv/2) + A x_new) and turns the unit orientation v by dt (I - vv^T)(F(x + lv/2) - F(x - lv/2))/(l tau), l = max(l_min, l_0 exp(-t/tau_l)), with v normalised over all fields afterwards. The monitor reports the largest force and torque, the RMS force and the field norm of the step and logs one line per epoch. On smooth landscapes with one unstable direction it converges to the saddle. A step without an orientation or time step, an orientation of the wrong length and a modal filter are refused.",
     [I, G, H], "all systems of equations (one or more fields), orientations, dimer lengths, time constants, numbers of steps",
     "The tests run one field towards a saddle with loose tolerance.",
     ["pf/sdd.go", "pf/model.go"],
     [("Step, updateOrientation, ShermanMorrison solve", "pf/sdd.go")],
     SAMPLED + "up to 12 nodes per field (dense reference solve), 1-4 steps; steps with near singular matrices are skipped.",
     "property-based testing: differential against a dense real space reference step; convergence on generated landscapes")

prop("C15", "Charge follows Ohm's law and is conserved",
     "ChargeTransport adds minus the divergence of the current j = sigma (E_ext - grad phi), lap phi = -rho, for any symmetric conductivity tensor that varies in space, given in the documented order (xx, yy, xy or xx, yy, zz, xz, yz, xy). Current returns j at every node, from the real space and from the transformed density. The total charge never changes and in a uniform isotropic conductor every variation decays at rate sigma, with a mean current sigma E_ext.",
     [I, C, H], "all conductivities, charge densities, external fields, 2D and 3D domains",
     "Tests use diagonal constant conductivities and a single domain.",
     ["pf/chargeTransport.go"],
     [("Construct, Current", "pf/chargeTransport.go")],
     SAMPLED + "against spectral reference formulas on small domains.",
     "property-based testing: differential against spectral reference formulas, conservation")

prop("C16", "Noise has the promised spectrum and is independent in space and time",
     "A field driven by WhiteNoise receives in each step of size dt independent increments with mean zero and variance 2*Strength*dt^2 at every node. ConservativeNoise is the divergence of independent white currents of that strength: every mode has the power N*2*Strength*sum over the axes of (2 sin(pi f))^2 (no part from f = 1/2), the constant mode has none, two noise terms and two steps are uncorrelated and the noise is real. A conservative noise term whose current fields are not all registered is refused.",
     [I, C, H], "all domains, strengths, seeds of the random generator",
     "Distributional; tests check that the sum is zero.",
     ["pf/noise.go"],
     [("Generate", "pf/noise.go"), ("Construct, RequiredDerivedFields", "pf/noise.go")],
     SAMPLED + "statistics of 300 steps per case within 7 standard deviations; smaller deviations are not seen.",
     "property-based testing: statistical invariants over generated histories")

prop("E01", "Elastic tensors, contractions and rotations are those of linear elasticity",
     "Isotropic(B, nu), CubicMaterial(c11, c12, c44) and FromFlatVoigt give the full tensor C_ijkl of the material (with all symmetries that the moduli imply), Set/At address each of the 81 elements separately, ContractLast is sum_kl C_ijkl e_kl, EnergyDensity is half the strain times the stress, Rotate is the tensor transformation R R R R C (so energies do not depend on the frame and rotating back restores the tensor), RotationMatrix is orthogonal, leaves its axis alone and adds up angles.",
     [I], "all moduli, strains (symmetric or not), rotations (proper and improper), tensors with and without symmetry",
     "The tests evaluate a few diagonal strains and single elements.",
     ["elasticity/rank4.go", "elasticity/linearElasticity.go"],
     [("Rank4, ContractLast, Rotate", "elasticity")],
     SAMPLED + "numerical comparison of all 81 elements.",
     "property-based testing: generated tensors, metamorphic and reference definitions")

prop("E02", "Stress is balanced and strain energies are those of the inclusion problem",
     "Displacements and strains from a force density solve mechanical equilibrium C_ijkl d_j d_l u_k = -f_i at every mode; the strain is the symmetrised gradient of the displacement (no part from the half sampling frequency); the effective force of an inclusion is minus the divergence of C:misfit times the indicator, the perturbed force minus the divergence of dC:(misfit - strain) times the shape, so that HomogeneousModulusEnergy and CalculateStrainEnergy give the energy left after relaxation. CalculateStrainEnergy returns the energy of the ellipsoid with its half axes along x, y, z and is invariant under exchanging the axes of everything, proportional to the moduli and to the square of the misfit.",
     [I, C], "all stable materials, misfit strains, shapes, domains",
     "The tests compare special symmetric cases (spheres, isotropic), where mixed up axes do not show.",
     ["elasticity/linearElasticity.go", "elasticity/effectiveForce.go", "elasticity/perturbation.go", "elasticity/strainEnergyCLI.go", "elasticity/shapes.go"],
     [("Displacements, Strain", "elasticity/linearElasticity.go"), ("EffectiveForce", "elasticity/effectiveForce.go"), ("PerturbedForce", "elasticity/perturbation.go"), ("CalculateStrainEnergy", "elasticity/strainEnergyCLI.go")],
     SAMPLED + "exact energies on odd sides, metamorphic on even ones; one known finding (KF-INCENERGY) on the modulus difference.",
     "property-based testing: differential against an independent Fourier solver, metamorphic relations")
