def t(body, imports=(), pkg="pf"):
    imp = "".join('\t"%s"\n' % i for i in sorted(set(["testing"] + [i for i in imports if "/" not in i or i.startswith("math/") or i.startswith("database/") or i.startswith("encoding/") or i.startswith("path/") or i.startswith("os/")])))
    ext = "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in imports if "/" in i and not (i.startswith("math/") or i.startswith("database/") or i.startswith("encoding/") or i.startswith("path/") or i.startswith("os/")))
    return "package %s\n\nimport (\n%s%s)\n\n%s" % (pkg, imp, ("\n" + ext) if ext else "", body)
PU = "github.com/davidkleiven/gopf/pfutil"
MAT = "gonum.org/v1/gonum/mat"
EL = "github.com/davidkleiven/gopf/elasticity"
BUGS = [
dict(id="B01", property="C01", pkg="pf",
 edits=[("pf/rhsBuilder.go", "lap := LaplacianN{Power: 4}", "lap := LaplacianN{Power: 2}")],
 needs="a registered term under LAP^4", breaks="LAP^4 of a registered term is evaluated as LAP^2",
 demo=t('''type one struct{}

func (o *one) Construct(b map[string]Brick) Term {
	return func(freq Frequency, tm float64, field []complex128) {
		for i := range field {
			field[i] = 1.0
		}
	}
}
func (o *one) OnStepFinished(tm float64, b map[string]Brick) {}

func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	m.RegisterExplicitTerm("TERM", &one{}, nil)
	m.AddEquation("dconc/dt = LAP^4*TERM")
	m.Init()
	ft := pfutil.NewFFTW([]int{4, 4})
	got := real(m.GetRHS(0, ft.Freq, 0.0)[1])
	want := math.Pow(2.0*math.Pi*0.25, 8.0)
	if math.Abs(got-want) > 1e-8*want {
		t.Fatalf("demo: got %f want %f", got, want)
	}
}
''', ["math", PU])),
dict(id="B02", property="C01", pkg="pf",
 edits=[("pf/rhsBuilder.go", '''				for j := range brickNames {
					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[j], 0.0))
				}
			}

			if fieldName != "" {
				for i := range field {
					field[i] *= m.Bricks[fieldName].Get(i)
				}
			}
			lap.Eval''', '''				for j := range brickNames {
					field[i] *= cmplx.Pow(m.Bricks[brickNames[j]].Get(i), complex(powers[0], 0.0))
				}
			}

			if fieldName != "" {
				for i := range field {
					field[i] *= m.Bricks[fieldName].Get(i)
				}
			}
			lap.Eval''')],
 needs="two scalars with different powers in front of a laplacian", breaks="all scalars of a laplacian term get the power of the first one",
 demo=t('''func TestDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	f.Data[0] = 1.0
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("a", 2.0))
	m.AddScalar(NewScalar("b", 3.0))
	m.AddEquation("dconc/dt = a^2*b*LAP conc")
	m.Init()
	ft := pfutil.NewFFTW([]int{4, 4})
	got := real(m.GetDenum(0, ft.Freq, 0.0)[1])
	want := -12.0 * math.Pow(2.0*math.Pi*0.25, 2.0)
	if math.Abs(got-want) > 1e-8*math.Abs(want) {
		t.Fatalf("demo: got %f want %f", got, want)
	}
}
''', ["math", PU])),
dict(id="B03", property="C03", pkg="pf",
 edits=[("pf/rk4.go", "		if rk.Filter != nil {\n", "		if rk.Filter != nil && i == 0 {\n")],
 needs="a modal filter and more than one field", breaks="RK4 filters only the first field",
 demo=t('''type half struct{}

func (h *half) Eval(x float64) float64 { return 0.5 }

func TestDemo(t *testing.T) {
	m := NewModel()
	for _, n := range []string{"conc", "eta"} {
		f := NewField(n, 16, nil)
		for i := range f.Data {
			f.Data[i] = 1.0
		}
		m.AddField(f)
	}
	m.AddScalar(NewScalar("k", 0.0))
	m.AddEquation("dconc/dt = k*conc")
	m.AddEquation("deta/dt = k*eta")
	m.Init()
	st := RK4{Dt: 1.0, FT: pfutil.NewFFTW([]int{4, 4}), Filter: &half{}}
	st.Step(&m)
	for i := range m.Fields {
		if got := real(m.Fields[i].Data[3]); math.Abs(got-0.5) > 1e-10 {
			t.Fatalf("demo: field %d: got %f want 0.5", i, got)
		}
	}
}
''', ["math", PU])),
dict(id="B04", property="C04", pkg="pf",
 edits=[("pf/implicitEuler.go", "	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)\n", "	if real(denum)*ie.Dt < -8.0 {\n		// Strongly damped modes follow their forcing\n		return -a / denum\n	}\n	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)\n")],
 needs="a strongly damped mode (rate times time step above 8) whose forcing changes over the step", breaks="strongly damped modes follow the forcing at the beginning of the step instead of the one at its end",
 demo=t("""func TestDemo(t *testing.T) {
	f := NewField("conc", 1, nil)
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("k", 2.0))
	m.AddEquation("dconc/dt = - k*conc")
	m.AddSource(0, NewSource([]float64{0, 0}, func(t float64) float64 { return t }))
	m.Init()
	st := ImplicitEuler{Dt: 10.0, FT: pfutil.NewFFTW([]int{1, 1})}
	st.Step(&m)
	want := 10.0/2.0 - 0.25
	if got := real(m.Fields[0].Data[0]); math.Abs(got-want) > 1e-3 {
		t.Fatalf("demo: got %f want %f", got, want)
	}
}
""", ["math", PU])),
dict(id="B05", property="C05", pkg="pf",
 edits=[("pf/diffOp.go", "math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power))", "math.Pow(-math.Max(math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), 1e-3), float64(l.Power))")],
 needs="an equation in divergence form with a non-zero mean of the flux potential", breaks="the laplacian has a non-zero mean, so the amount drifts",
 demo=t('''func TestDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = complex(1.0+0.1*float64(i%3), 0.0)
	}
	sum := func() float64 {
		s := 0.0
		for _, v := range f.Data {
			s += real(v)
		}
		return s
	}
	m := NewModel()
	m.AddField(f)
	m.AddScalar(NewScalar("k", 1.0))
	m.AddEquation("dconc/dt = LAP conc^3 + k*LAP conc")
	m.Init()
	before := sum()
	st := Euler{Dt: 0.01, FT: pfutil.NewFFTW([]int{4, 4})}
	for i := 0; i < 10; i++ {
		st.Step(&m)
	}
	if after := sum(); math.Abs(after-before) > 1e-8 {
		t.Fatalf("demo: %f became %f", before, after)
	}
}
''', ["math", PU])),
dict(id="B06", property="C06", pkg="pf",
 edits=[("pf/sourceTerm.go", "-complex(0.0, 2.0*math.Pi*pfutil.Dot(k, s.Pos))", "-complex(0.0, 2.0*math.Pi*pfutil.Dot(k[:2], s.Pos[:2]))")],
 needs="a source in a three dimensional domain away from z = 0", breaks="sources in three dimensions ignore the z coordinate",
 demo=t('''func TestDemo(t *testing.T) {
	dims := []int{2, 2, 4}
	f := NewField("conc", 16, nil)
	m := NewModel()
	m.AddField(f)
	m.AddEquation("dconc/dt = conc")
	m.AddSource(0, NewSource([]float64{1, 0, 2}, func(tm float64) float64 { return 1.0 }))
	m.Init()
	st := Euler{Dt: 0.1, FT: pfutil.NewFFTW(dims)}
	st.Step(&m)
	at := pfutil.NodeIdx(dims, []int{1, 0, 2})
	for i := range f.Data {
		if (math.Abs(real(f.Data[i])) > 1e-3) != (i == at) {
			t.Fatalf("demo: node %d is %v", i, f.Data[i])
		}
	}
}
''', ["math", PU])),
dict(id="B08", property="C08", pkg="pf",
 edits=[("pf/solver.go", '''			cb(s, i+s.StartEpoch)
		}

		// Update monitors
		for i := range s.Monitors {
			s.Monitors[i].Add(s.Model.Bricks)
		}
''', '''			cb(s, i+s.StartEpoch)

			// Update monitors
			for j := range s.Monitors {
				s.Monitors[j].Add(s.Model.Bricks)
			}
		}
''')],
 needs="a monitor, and a number of callbacks other than one", breaks="monitors are updated once per callback instead of once per epoch",
 demo=t('''func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	m.AddEquation("dconc/dt = conc")
	s := NewSolver(&m, []int{4, 4}, 0.1)
	mon := NewPointMonitor(0, "conc")
	s.AddMonitor(&mon)
	s.AddCallback(func(s *Solver, e int) {})
	s.AddCallback(func(s *Solver, e int) {})
	s.Solve(3, 1)
	if len(mon.Data) != 3 {
		t.Fatalf("demo: %d values", len(mon.Data))
	}
}
''')),
dict(id="B09", property="C09", pkg="pf",
 edits=[("pf/model.go", '''	m.RHSModifiers = append(m.RHSModifiers, eqModifier{
		EqNo:        eqNumber,
		RHSModifier: modifier,
	})''', '''	m.RHSModifiers = append([]eqModifier{{
		EqNo:        eqNumber,
		RHSModifier: modifier,
	}}, m.RHSModifiers...)''')],
 needs="two modifiers of one equation that do not commute", breaks="modifiers are applied last to first",
 demo=t('''func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("conc", 16, nil))
	m.AddEquation("dconc/dt = conc^2")
	m.RegisterRHSModifier(0, func(d []complex128) { d[0] += 1.0 })
	m.RegisterRHSModifier(0, func(d []complex128) { d[0] *= 3.0 })
	m.Init()
	ft := pfutil.NewFFTW([]int{4, 4})
	if got := real(m.GetRHS(0, ft.Freq, 0.0)[0]); got != 3.0 {
		t.Fatalf("demo: got %f", got)
	}
}
''', [PU])),
dict(id="B10", property="C10", pkg="pf",
 edits=[("pf/squareGradientTerm.go", "				field[i] += work[i] * complex(s.Factor, 0.0)\n", "				field[i] += work[i] * complex(s.Factor*s.Factor, 0.0)\n")],
 needs="a factor other than zero and one", breaks="the factor of the squared gradient is applied twice",
 demo=t('''func TestDemo(t *testing.T) {
	f := NewField("conc", 64, nil)
	for i := range f.Data {
		f.Data[i] = complex(math.Sin(2.0*math.Pi*float64(i%8)/8.0), 0.0)
	}
	sq := NewSquareGradient("conc", []int{8, 8})
	sq.Factor = 0.5
	ft := pfutil.NewFFTW([]int{8, 8})
	ft.FFT(f.Data)
	term := sq.Construct(map[string]Brick{"conc": f})
	out := make([]complex128, 64)
	term(ft.Freq, 0.0, out)
	want := 0.5 * 32.0 * math.Pow(2.0*math.Pi/8.0, 2)
	if math.Abs(real(out[0])-want) > 1e-8 {
		t.Fatalf("demo: got %f want %f", real(out[0]), want)
	}
}
''', ["math", PU])),
dict(id="B11", property="C11", pkg="pf",
 edits=[("pf/volumeConserving.go", "		deltaI := fieldIntegral - v.CurrentIntegral\n		v.CurrentIntegral = fieldIntegral\n", "		deltaI := fieldIntegral - v.CurrentIntegral\n")],
 needs="more than two steps in which the volume changes", breaks="the change of volume is measured against the first step instead of the previous one",
 demo=t('''func TestDemo(t *testing.T) {
	f := NewField("conc", 4, nil)
	ind := NewField("ind", 4, nil)
	ind.Data[0] = 2.0
	b := map[string]Brick{"conc": f, "ind": ind}
	v := NewVolumeConservingLP("conc", "ind", 0.5, 4)
	v.OnStepFinished(0.5, b)
	f.Data[0] = 1.0
	v.OnStepFinished(1.0, b)
	v.OnStepFinished(1.5, b)
	v.OnStepFinished(2.0, b)
	if math.Abs(v.Multiplier+1.0) > 1e-10 {
		t.Fatalf("demo: multiplier %f", v.Multiplier)
	}
}
''', ["math"])),
dict(id="B12", property="C12", pkg="pf",
 edits=[("pf/pairCorrelationTerm.go", "		field[i] *= complex(pct.Prefactor*pct.PairCorrFunc.Eval(2.0*math.Pi*fRad), 0.0)", "		field[i] *= complex(pct.PairCorrFunc.Eval(2.0*math.Pi*fRad), 0.0)")],
 needs="a prefactor other than one", breaks="the energy ignores the prefactor that the term applies",
 demo=t('''func TestDemo(t *testing.T) {
	f := NewField("conc", 16, nil)
	for i := range f.Data {
		f.Data[i] = complex(float64(i), 0.0)
	}
	pc := pfc.ReciprocalSpacePairCorrelation{Peaks: []pfc.Peak{{PlaneDensity: 1, Location: 0, Width: 1, NumPlanes: 1}}}
	e := make([]float64, 2)
	for k := range e {
		pct := PairCorrlationTerm{PairCorrFunc: pc, Field: "conc", Prefactor: float64(k + 1)}
		e[k] = pct.GetEnergy(map[string]Brick{"conc": f}, pfutil.NewFFTW([]int{4, 4}), []int{4, 4})
	}
	if math.Abs(e[1]-2.0*e[0]) > 1e-8*math.Abs(e[0]) {
		t.Fatalf("demo: energies %v", e)
	}
}
''', ["math", "github.com/davidkleiven/gopf/pfc", PU])),
dict(id="B14", property="C14", pkg="pf",
 edits=[("pf/sdd.go", "(sdd.DimerLength(sdd.GetTime()) * sdd.TimeConstants.Orientation)", "(sdd.InitDimerLength * sdd.TimeConstants.Orientation)")],
 needs="several steps: the dimer has to shrink first", breaks="the torque is divided by the initial dimer length",
 demo=t('''func TestDemo(t *testing.T) {
	turn := func(init float64) float64 {
		x, y := NewField("xc", 1, nil), NewField("yc", 1, nil)
		x.Data[0], y.Data[0] = 0.3, 0.2
		m := NewModel()
		m.AddField(x)
		m.AddField(y)
		m.AddScalar(NewScalar("TWO", 2.0))
		m.AddEquation("dxc/dt = TWO*xc")
		m.AddEquation("dyc/dt = -TWO*yc")
		m.Init()
		s := NewSDD([]int{1, 1}, &m)
		s.Dt = 0.01
		s.MinDimerLength = 1e-3
		s.SetInitialOrientation([]float64{0.6 * init, 0.8 * init})
		s.CurrentStep = int(10.0 * math.Log(init) / 0.1)
		s.Step(&m)
		return s.orientation[0]
	}
	// The initial length only matters through the current length
	a, b := turn(1.0), turn(math.E)
	if math.Abs(a-b) > 1e-3 || math.Abs(a-0.6) < 1e-4 {
		t.Fatalf("demo: orientations %f %f", a, b)
	}
}
''', ["math"])),
dict(id="B15", property="C15", pkg="pf",
 edits=[("pf/chargeTransport.go", "		{3, 4, 2},", "		{4, 3, 2},")],
 needs="a three dimensional conductivity with off-diagonal elements", breaks="the conductivity tensor is not symmetric: xz and yz are exchanged in its last row",
 demo=t('''func TestDemo(t *testing.T) {
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if voigtIndex(i, j, 3) != voigtIndex(j, i, 3) {
				t.Fatalf("demo: element %d %d", i, j)
			}
		}
	}
}
''')),
dict(id="B16", property="C16", pkg="pf",
 edits=[("pf/noise.go", "				omegaHalf := math.Pi * f\n", "				omegaHalf := math.Pi * math.Min(f, 0.25)\n")],
 needs="high frequencies", breaks="conservative noise is too weak at high frequencies",
 demo=t('''func TestDemo(t *testing.T) {
	cn := NewConservativeNoise(1.0, 2)
	b := map[string]Brick{}
	for _, d := range cn.RequiredDerivedFields(64) {
		for i := range d.Data {
			d.Data[i] = 1.0
		}
		b[d.Name] = d
	}
	out := make([]complex128, 64)
	cn.Construct(b)(pfutil.NewFFTW([]int{8, 8}).Freq, 0.0, out)
	if got, want := imag(out[3]), 2.0*math.Sin(math.Pi*3.0/8.0); math.Abs(got-want) > 1e-8 {
		t.Fatalf("demo: got %f want %f", got, want)
	}
}
''', ["math", PU])),
dict(id="B17", property="E01", pkg="elasticity",
 edits=[("elasticity/rank4.go", "rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(l, q)", "rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(q, l)")],
 needs="a rotation matrix that is not symmetric, and an anisotropic material", breaks="one index is rotated the wrong way",
 demo=t('''func TestDemo(t *testing.T) {
	c := CubicMaterial(100, 60, 30)
	c.Rotate(RotationMatrix(0.3, 2))
	c.Rotate(RotationMatrix(-0.3, 2))
	w := CubicMaterial(100, 60, 30)
	for i := range c.Data {
		if math.Abs(c.Data[i]-w.Data[i]) > 1e-8 {
			t.Fatalf("demo: element %d is %f want %f", i, c.Data[i], w.Data[i])
		}
	}
}
''', ["math"], "elasticity")),
dict(id="B18", property="E02", pkg="elasticity",
 edits=[("elasticity/effectiveForce.go", "force[i] += complex(0.0, -e.EffStress.At(comp, j)*2.0*math.Pi*k[j]) * indicator[i]", "force[i] += complex(0.0, -e.EffStress.At(j, j)*2.0*math.Pi*k[j]) * indicator[i] * complex(kron(comp, j), 0.0)"),
        ("elasticity/effectiveForce.go", "// Get calculates", "func kron(i, j int) float64 {\n	if i == j {\n		return 1.0\n	}\n	return 0.0\n}\n\n// Get calculates") if False else ("elasticity/effectiveForce.go", "// EffectiveForce ", "func kron(i, j int) float64 {\n	if i == j {\n		return 1.0\n	}\n	return 0.0\n}\n\n// EffectiveForce ")],
 needs="a misfit strain with shear", breaks="shear stresses do not contribute to the effective force",
 demo=t('''func TestDemo(t *testing.T) {
	misfit := mat.NewDense(3, 3, nil)
	misfit.Set(0, 1, 0.1)
	misfit.Set(1, 0, 0.1)
	e := NewEffectiveForceFromMisfit(Isotropic(60, 0.3), misfit)
	f := e.Get(0, func(i int) []float64 { return []float64{0, 0.25, 0} }, []complex128{1})
	if math.Abs(imag(f[0])) < 1.0 {
		t.Fatalf("demo: %v", f)
	}
}
''', ["math", MAT], "elasticity")),
dict(id="B19", property="P01", pkg="pfc",
 edits=[("pfc/miller.go", "	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {", "	if abs(miller.L) == abs(miller.K) {")],
 needs="indices whose first and last value are equal but not the middle one, for example (1, 2, 1)", breaks="the number of equivalent indices is twice too large",
 demo=t('''func TestDemo(t *testing.T) {
	m := Miller{1, 2, 1}
	if n := NumEquivalent3D(m); n != len(EquivalentMiller(m)) {
		t.Fatalf("demo: %d", n)
	}
}
''', [], "pfc")),
dict(id="B20", property="P02", pkg="pfc",
 edits=[("pfc/mode_solver.go", "		weight += 2.0 * float64(miller.At(i)) * Q.At(i, j) * float64(miller.At(j))", "		weight += float64(miller.At(i)) * Q.At(i, j) * float64(miller.At(j))")] if False else [("pfc/mode_solver.go", "			weight += 2.0 * float64(miller.At(i)) * Q.At(i, j) * float64(miller.At(j))", "			weight += float64(miller.At(i)) * Q.At(i, j) * float64(miller.At(j))")],
 needs="a reciprocal cell that is not orthogonal", breaks="the bulk modulus weight counts the off-diagonal elements once",
 demo=t('''func TestDemo(t *testing.T) {
	Q := mat.NewDense(3, 3, []float64{1, 0.3, 0, 0.3, 1, 0, 0, 0, 1})
	if got, want := BulkModWeight(Miller{1, 1, 0}, Q), 2.6/9.0; math.Abs(got-want) > 1e-10 {
		t.Fatalf("demo: got %f want %f", got, want)
	}
}
''', ["math", MAT], "pfc")),
dict(id="B21", property="P03", pkg="pfc",
 edits=[("pfc/periodicFieldInit.go", "	for ix := 0; ix < grid.Dims[0]/2; ix++ {\n		for iy := 0; iy < grid.Dims[1]; iy++ {", "	for ix := 0; ix < grid.Dims[0]/2; ix++ {\n		for iy := 0; iy < grid.Dims[0] && iy < grid.Dims[1]; iy++ {")],
 needs="a domain that is longer along y", breaks="the left grain ends where the domain is longer than wide",
 demo=t('''func TestDemo(t *testing.T) {
	g := pfutil.NewGrid([]int{8, 32})
	for i := range g.Data {
		g.Data[i] = float64(i)
	}
	r := g.Copy()
	r.Rotate2D(0.2)
	TiltGB(&g, 0.4)
	for ix := 0; ix < 4; ix++ {
		for iy := 0; iy < 32; iy++ {
			if p := []int{ix, iy}; g.Get(p) != r.Get(p) {
				t.Fatalf("demo: at %v", p)
			}
		}
	}
}
''', [PU], "pfc")),
dict(id="B22", property="U01", pkg="pfutil",
 edits=[("pfutil/sliceOperations.go", "			pos[i] += (factor + 1) * domainSize[i]", "			pos[i] += domainSize[i] + factor*domainSize[0]")],
 needs="an offset of more than one period along an axis that is not as long as the first", breaks="Wrap takes the length of the first axis",
 demo=t('''func TestDemo(t *testing.T) {
	p := []int{0, -8}
	Wrap(p, []int{4, 7})
	if p[1] != 6 {
		t.Fatalf("demo: %v", p)
	}
}
''', [], "pfutil")),
dict(id="B23", property="U02", pkg="pfutil",
 edits=[("pfutil/voronoi.go", "		for _, shift := range []int{-1, 1} {", "		for _, shift := range []int{1} {")],
 needs="a seed that is closer over the lower boundary", breaks="distances over one of the two boundaries are ignored",
 demo=t('''func TestDemo(t *testing.T) {
	for _, p := range [][2]int{{1, 9}, {9, 1}} {
		if d := pointDistSq(p[0], p[1], []int{1, 10}); d != 4 {
			t.Fatalf("demo: %v %d", p, d)
		}
	}
}
''', [], "pfutil")),
dict(id="B24", property="D01", pkg="pf",
 edits=[("pf/database.go", '''	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
		"WHERE simID=? AND timestep=?", simID, timestep)''', '''	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
		"WHERE timestep=? ORDER BY simID=?", timestep, simID)''')],
 needs="two simulations in one database, the other one with a field that is missing", breaks="values of another simulation are read",
 demo=t('''func TestDemo(t *testing.T) {
	db, _ := sql.Open("sqlite3", os.Getenv("DEMO_DIR")+"/a.db")
	defer db.Close()
	ids := []int{}
	for k, names := range [][]string{{"a"}, {"a", "b"}} {
		m := NewModel()
		for _, n := range names {
			f := NewField(n, 4, nil)
			f.Data[0] = complex(float64(k+1), 0.0)
			m.AddField(f)
		}
		fdb := FieldDB{DB: db, DomainSize: []int{2, 2}}
		fdb.SaveFields(&Solver{Model: &m}, 0)
		ids = append(ids, int(fdb.simID))
	}
	defer func() {
		if recover() != nil {
			t.Fatalf("demo: panic")
		}
	}()
	fdb := FieldDB{DB: db, DomainSize: []int{2, 2}}
	f := fdb.Load(ids[0], 0)
	if len(f) != 1 || f[0].Data[0] != 1.0 {
		t.Fatalf("demo: %v", f)
	}
}
''', ["database/sql", "os", '_ "github.com/mattn/go-sqlite3"'])),
dict(id="B25", property="D02", pkg="pf",
 edits=[("pf/fileIO.go", '			record[j+3] = fmt.Sprintf("%f", f.Data.Get(i))', '			record[j+3] = fmt.Sprintf("%.6g", f.Data.Get(i))')],
 needs="values with more than six significant digits", breaks="csv files keep six significant digits instead of six decimals",
 demo=t('''func TestDemo(t *testing.T) {
	fn := os.Getenv("DEMO_DIR") + "/a.csv"
	SaveCsv(fn, []CsvData{{Name: "a", Data: &pfutil.RealSlice{Data: []float64{12345.654321}}}}, []int{1, 1})
	if got := real(LoadCSV(fn)[0].Data[0]); math.Abs(got-12345.654321) > 1e-6 {
		t.Fatalf("demo: %f", got)
	}
}
''', ["math", "os", PU])),
]
