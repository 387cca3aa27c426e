I, H, C, G = "inputs", "histories", "configurations", "programs"
SAMPLED = "Sampled search, not exhaustive: "

prop("C01", "An equation means the sum of its terms",
     "For every equation string the right hand side that a model evaluates equals, at every Fourier mode, the sum over the written terms of sign * product of the named scalars, fields, registered functions and powers, with the Laplacian powers applied to the product that follows, plus registered sources and user defined terms. Each equation acts on the field named on its own left hand side. Spelling variants (spaces, order of factors, leading minus, field names that are parts of other names) do not change the value.",
     [G, I], "all equation strings built from registered fields, scalars, functions, user defined terms, LAP^n operators, integer powers and signs, on all 2D/3D domains and field values",
     "The tests parse a handful of fixed strings on one small domain; the language is infinite and mistakes only show for particular combinations (names that contain each other, terms without fields, several equations).",
     ["pf/rhsBuilder.go", "pf/model.go", "pf/userDefinedTerm.go", "pf/util.go"],
     [("Build, ConcreteTerm, GetRHS", "pf/rhsBuilder.go, pf/model.go")],
     SAMPLED + "random equation systems; trusts the harness' interpreter of the language and its direct DFT.",
     "property-based testing: generated equation programs against an independent interpreter",
     observe=["Model.GetRHS, Model.GetFieldAsFT after Init"])

prop("C02", "The Euler stepper is the documented semi-implicit scheme",
     "One step of the default stepper moves every field from y_n to (y_n + dt*N(y_n, t_n))/(1 - dt*A) mode by mode, where A collects the terms linear in the field itself (unless the text of the term contains the name of another field, which an existing test relies on) and N everything else, all evaluated at the old state and time. After the step the clock has advanced by exactly dt, and a modal filter, if set, multiplies each new mode by its value at that mode.",
     [I, G, H], "all models, field values, domains, time steps and numbers of steps",
     "The tests check single diffusion-like equations with one field; the order of evaluation only matters for coupled equations, time only for explicit time dependence.",
     ["pf/euler.go", "pf/model.go", "pf/solver.go"],
     [("Step/Propagate", "pf/euler.go"), ("GetRHS/GetDenum", "pf/model.go")],
     SAMPLED + "systems of up to three equations, 1-3 steps, tolerance 1e-8 relative; steps with an almost singular denominator are skipped.",
     "property-based testing: generated systems, differential against a reference stepper")

prop("C03", "The RK4 stepper is the classical four stage scheme",
     "One step of the RK4 stepper equals (y_n + dt*(k1 + 2 k2 + 2 k3 + k4)/6)/(1 - dt*A) mode by mode, with A at the time t of the start of the step, k1 = N(y_n, t), k2 and k3 evaluated at the half step state (y_n + dt/2*k)/(1 - dt/2*A) and time t+dt/2, and k4 at (y_n + dt*k3)/(1 - dt*A) and t+dt. After the step the clock has advanced by exactly dt, and a modal filter, if set, multiplies each new mode by its value at that mode.",
     [I, G, H], "all models, field values, domains, time steps and numbers of steps",
     "The tests compare one scalar equation without explicit time dependence.",
     ["pf/rk4.go", "pf/model.go", "pf/solver.go"],
     [("Step, Propagate", "pf/rk4.go")],
     SAMPLED + "systems of up to three equations, 1-3 steps, tolerance 1e-8 relative; steps with an almost singular denominator are skipped.",
     "property-based testing: generated systems, differential against a reference stepper")

prop("C04", "A step of the implicit stepper solves its implicit equation",
     "A step of ImplicitEuler ends in a state y1 that solves y1 = e^{A dt} y0 + dt*phi1(A dt)*N(y0,t) + dt*phi2(A dt)*(N(y1,t+dt) - N(y0,t)) in Fourier space, to the accuracy of the non-linear solver. In particular linear diffusion and decay follow the exact exponential for any time step, and the clock advances by dt.",
     [I, G, H], "all models whose step has a unique solution (the fixed point map contracts), all time steps",
     "The existing test runs one equation; whether the solve ends in the solution depends on the system, the time and the step size.",
     ["pf/implicitEuler.go"],
     [("Step, updateEquation, residual solve", "pf/implicitEuler.go")],
     SAMPLED + "systems for which the reference fixed point iteration contracts; tolerance 2e-5 (accuracy of the non-linear solver). States the implemented scheme, see DESIGN.md.",
     "property-based testing: generated systems, residual of the implicit equation")

prop("C05", "Equations in divergence form conserve the amount of every field",
     "When every term of an equation carries a Laplacian (or is conservative noise), the sum of the field over the domain never changes, except by dt times what the point sources of that equation deliver, with every stepper. Fields that start real stay real.",
     [I, G, H], "all systems whose terms carry a Laplacian, all histories of steps, all steppers",
     "Conservation is an invariant over whole histories; the tests check particular runs with loose tolerances.",
     ["pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/rhsBuilder.go", "pf/noise.go", "pf/sourceTerm.go"],
     [("Laplacian operators", "pf/rhsBuilder.go, pf/diffOp.go"), ("Source", "pf/sourceTerm.go"), ("ConservativeNoise", "pf/noise.go")],
     SAMPLED + "up to 6 steps, relative tolerance 1e-11 (1e-6 for the iterative stepper).",
     "property-based testing: invariant over generated histories")

prop("C06", "The evolution respects the symmetries of the problem",
     "Periodic translation, reflection or exchange of axes of the initial fields and sources gives the translated, reflected or exchanged solution with every stepper. Renaming or reordering fields, scalars and equations does not change any solution, and equations that do not refer to each other evolve as if the others were absent.",
     [I, G, C], "all systems, shifts, reflections, axis permutations, orders of registration; all steppers",
     "Metamorphic relations between pairs of runs; no test compares two runs of different models.",
     ["pf/model.go", "pf/solver.go", "pf/euler.go", "pf/rk4.go", "pf/implicitEuler.go", "pf/sourceTerm.go", "pfutil/fftWrap.go"],
     [("index and frequency conventions", "pfutil/fftWrap.go"), ("field/equation association", "pf/model.go")],
     SAMPLED + "metamorphic, tolerance 1e-8 (1e-4 for the iterative stepper).",
     "property-based testing: metamorphic relations between pairs of runs")

prop("C07", "Transforms, frequencies and node numbering fit together",
     "The forward transform is the discrete Fourier transform of the field in the node numbering of the grid, and the inverse undoes it, for every 2D and 3D domain with any sides. The frequency, position, node number and conjugate node reported for each index are those of that transform, and the iterators over the modes of a real field visit each independent mode exactly once.",
     [I, C], "all 2D and 3D domain sizes (odd, even, unequal, one) and all real or complex data",
     "The tests use a few square domains, where mixed up axes do not show.",
     ["pfutil/fftWrap.go", "pfutil/indexPositionConversion.go", "pf/util.go"],
     [("FFTWWrapper", "pfutil/fftWrap.go"), ("UniqueFreqIterator, RealAmplitudeIterator", "pf/util.go")],
     SAMPLED + "against a direct O(N^2) transform on domains of at most a few hundred nodes.",
     "property-based testing: differential against a direct DFT, round trips")

prop("C08", "Callbacks, monitors and terms see every epoch and step exactly once",
     "Over any history of Solve and Propagate calls the model makes exactly the requested number of steps of size dt, independent of how they are divided into calls; each callback runs once per epoch, in the order of registration, after the steps of the epoch, with the running epoch number (counted from the start epoch) and the current state. Each monitor records one value per epoch, the one at its site of its field, and every registered user defined term is told once per step, with the new time and the new fields. The JSON form of the monitors holds what they recorded. Solvers used in turns do not influence each other.",
     [H, C], "all histories of solve, propagate, add callback and add monitor operations",
     "A history property; tests run one Solve call.",
     ["pf/solver.go", "pf/monitor.go", "pf/model.go"],
     [("Solve, Propagate, AddCallback, AddMonitor", "pf/solver.go"), ("EpochFinished", "pf/model.go"), ("PointMonitor.Add", "pf/monitor.go")],
     SAMPLED + "histories of up to 8 operations on one or two fields; pairs of systems advanced in turns.",
     "stateful property-based testing against a model of the solver")

prop("C09", "A model keeps what was registered apart and refuses mistakes",
     "Fields, scalars, functions, terms and derived fields are found under exactly the names they were registered with, each with its own value; setting a scalar changes its value in the equations; right hand side modifiers act on their own equation only, in the order of registration; initialising again changes nothing. A model with an undefined name, a wrong domain or data size, a malformed left hand side, a reserved name or an implicit term that depends on a field is refused, and a correct model never is.",
     [C, G, I], "all sets of registered names, terms with any number of derived fields, scalars, modifiers and planted mistakes",
     "Interference between registrations only shows for particular combinations.",
     ["pf/model.go", "pf/userDefinedTerm.go", "pf/util.go", "pf/solver.go"],
     [("registration and Init", "pf/model.go"), ("SyncDerivedFields", "pf/model.go")],
     SAMPLED + "random models with at most one planted mistake.",
     "property-based testing: generated models and planted mistakes against a registry model")

prop("C10", "Differential operators and gradient terms equal their continuous formula",
     "Gradients, Div(F grad c), advection -v.grad c, F*Laplacian c, squared gradients, tensorial Hessians K_ij d2/dxi dxj and powers of the Laplacian equal the spectral derivative formula at every node of any 2D or 3D domain when used in an equation, also when a model holds several of them, on one or on several fields. Results of real fields stay real, also on domains with even sides.",
     [I, C, G], "all domains, fields, prefactors, velocity fields and tensors K (not only symmetric ones)",
     "Tests use single plane waves on one domain and symmetric inputs.",
     ["pf/gradientCalculator.go", "pf/advection.go", "pf/diffOp.go", "pf/squareGradientTerm.go", "pf/tensorialHessian.go"],
     [("GradientCalculator.Calculate", "pf/gradientCalculator.go"), ("Construct of the terms", "pf/*.go")],
     SAMPLED + "against spectral derivatives from a direct DFT, one or two steps in a model.",
     "property-based testing: generated fields, differential against spectral reference formulas")
