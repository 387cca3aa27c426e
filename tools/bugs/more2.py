exec(open("/verif/tools/bugs/more.py").read().split("BUGS = [")[0])
PFC = "github.com/davidkleiven/gopf/pfc"
PF = "github.com/davidkleiven/gopf/pf"
BUGS = [
dict(id="C01", property="C16", pkg="pf",
 edits=[("pf/noise.go", "					field[i] += complex(0.0, 2.0*math.Sin(omegaHalf)) * brick.Get(i)", "					field[i] += complex(0.0, 2.0*math.Sin(omegaHalf)) * brick.Get(i)\n				} else if comp == 2 {\n					field[i] += complex(2.0*math.Sin(math.Pi*f), 0.0) * brick.Get(0)")],
 needs="conservative noise in three dimensions on a domain whose third side is even", breaks="the noise at the Nyquist frequency of the third axis is the mean current of the axis, all of it in one mode: the spectrum has power where it should have none",
 demo=t('''func TestDemo(t *testing.T) {
	cn := NewConservativeNoise(1.0, 3)
	m := NewModel()
	for _, d := range cn.RequiredDerivedFields(64) {
		d.Calc(d.Data)
		m.RegisterDerivedField(d)
	}
	ft := pfutil.NewFFTW([]int{4, 4, 4})
	out := make([]complex128, 64)
	cn.Construct(m.Bricks)(ft.Freq, 0.0, out)
	for i := range out {
		f := ft.Freq(i)
		if f[0] == 0.0 && f[1] == 0.0 && math.Abs(f[2]) == 0.5 && cmplx.Abs(out[i]) > 1e-12 {
			t.Fatalf("demo: power %v in mode %v", out[i], f)
		}
	}
}
''', ["math", "math/cmplx", PU])),
dict(id="C02", property="C16", pkg="pf",
 edits=[("pf/noise.go", "				std := math.Sqrt(2.0 * cn.Strength)\n				for i := range data {\n					data[i] = complex(rand.NormFloat64()*std, 0.0)", "				std := math.Sqrt(2.0 * cn.Strength)\n				for i := range data {\n					if i > 0 && i%len(dfields) == 0 && i == len(data)-1 {\n						data[i] = data[0]\n						continue\n					}\n					data[i] = complex(rand.NormFloat64()*std, 0.0)")],
 needs="a domain whose last node number is a multiple of the dimension", breaks="the noise current of the last node is a copy of the one in the first",
 demo=t('''func TestDemo(t *testing.T) {
	cn := NewConservativeNoise(1.0, 2)
	d := cn.RequiredDerivedFields(9)[0]
	d.Calc(d.Data)
	if d.Data[8] == d.Data[0] {
		t.Fatalf("demo: equal increments %v", d.Data[0])
	}
}
''')),
dict(id="C03", property="C11", pkg="pf",
 edits=[("pf/boundTransform.go", "	return math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)", "	x := (y - bt.Min) / (bt.Max - bt.Min)\n	if x > 0.999 {\n		x = 0.999\n	}\n	return math.Tan(math.Pi*x - 0.5*math.Pi)")],
 needs="a value within a thousandth of the upper bound", breaks="Backward no longer undoes Forward for large arguments",
 demo=t('''func TestDemo(t *testing.T) {
	bt := BoundTransform{Min: -1.0, Max: 3.0}
	for _, x := range []float64{-1000.0, 2.0, 1000.0} {
		if y := bt.Backward(bt.Forward(x)); math.Abs(y-x) > 1e-6*(1.0+math.Abs(x)) {
			t.Fatalf("demo: %f became %f", x, y)
		}
	}
}
''', ["math"])),
dict(id="C04", property="C13", pkg="pf",
 edits=[("pf/homoLinElast.go", "				if i != j {\n					factor *= 2.0", "				if i != j && j < 2 {\n					factor *= 2.0")],
 needs="a misfit with shear in a plane that contains z, in three dimensions", breaks="the shear strain energy is counted once instead of twice",
 demo=t('''func TestDemo(t *testing.T) {
	// exchanging y and z of everything may not change the value
	dims := []int{3, 3, 3}
	N := 27
	rate := func(a, b int) []float64 {
		mis := mat.NewDense(3, 3, nil)
		mis.Set(a, b, 0.1)
		mis.Set(b, a, 0.1)
		mis.Set(0, 0, 0.05)
		h := NewHomogeneousModolus("x", dims, elasticity.Isotropic(60.0, 0.3), mis)
		f := NewField("x", N, nil)
		at := func(i int) []int {
			p := pfutil.Pos(dims, i)
			if b == 2 {
				p[1], p[2] = p[2], p[1]
			}
			return p
		}
		for i := range f.Data {
			p := at(i)
			f.Data[i] = complex(0.1*float64((p[0]*p[0]+2*p[1]+3*p[2]*p[0])%7), 0.0)
		}
		out := make([]complex128, N)
		h.Construct(map[string]Brick{"x": f})(h.FT.Freq, 0.0, out)
		h.FT.IFFT(out)
		res := make([]float64, N)
		for i := range res {
			res[pfutil.NodeIdx(dims, at(i))] = real(out[i])
		}
		return res
	}
	r1, r2 := rate(0, 1), rate(0, 2)
	for i := range r1 {
		if math.Abs(r1[i]-r2[i]) > 1e-8*(1.0+math.Abs(r1[i])) {
			t.Fatalf("demo: node %d: %f and %f", i, r1[i], r2[i])
		}
	}
}
''', ["math", EL, MAT, PU])),
dict(id="C05", property="C14", pkg="pf",
 edits=[("pf/sdd.go", "	if l < sdd.MinDimerLength {\n", "	if l < sdd.MinDimerLength && t > 0.0 {\n")],
 needs="a minimum length above the initial one", breaks="the first step is taken with a dimer shorter than the minimum",
 demo=t('''func TestDemo(t *testing.T) {
	m := NewModel()
	m.AddField(NewField("x", 4, nil))
	s := NewSDD([]int{2, 2}, &m)
	s.MinDimerLength = 0.5
	s.InitDimerLength = 0.1
	for _, tm := range []float64{0.0, 1.0} {
		if l := s.DimerLength(tm); l < 0.5 {
			t.Fatalf("demo: %f at %f", l, tm)
		}
	}
}
''')),
dict(id="C07", property="C15", pkg="pf",
 edits=[("pf/chargeTransport.go", "				effCurrent[start+i] += complex(sigma[voigtIndex(d, d2, dim)], 0.0) * effField[i]", "				if math.Abs(real(effField[i])) > 1e-3*math.Abs(ct.ExternalField[d]) || d == d2 {\n					effCurrent[start+i] += complex(sigma[voigtIndex(d, d2, dim)], 0.0) * effField[i]\n				}")],
 needs="an anisotropic conductor in which the field of the charges cancels the external one up to a thousandth", breaks="the transverse current is cut off at small fields, Ohm's law is no longer linear",
 demo=t('''func TestDemo(t *testing.T) {
	sig := []float64{1.0, 2.0, 0.5}
	N := 16
	ct := ChargeTransport{Conductivity: func(i int) []float64 { return sig }, Field: "rho", ExternalField: []float64{1.0, 0.0}, FT: pfutil.NewFFTW([]int{4, 4})}
	rho := NewField("rho", N, nil)
	// field along x: E + A sin(pi/2 x) with minimum just above zero
	for i := range rho.Data {
		rho.Data[i] = complex(-0.9995*0.5*math.Pi*math.Cos(0.5*math.Pi*float64(i/4)), 0.0)
	}
	j := ct.Current(rho, N, true)
	for i := 0; i < N; i++ {
		if math.Abs(j[1][i]*sig[0]-j[0][i]*sig[2]) > 1e-9 {
			t.Fatalf("demo: node %d current %f %f", i, j[0][i], j[1][i])
		}
	}
}
''', ["math", PU])),
dict(id="C08", property="E01", pkg="elasticity",
 edits=[("elasticity/rank4.go", "		tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[i])", "		tensor.Set(i1[1], i1[0], i2[1], i2[0], voigt[q+6*p])")],
 needs="a Voigt matrix that is not symmetric", breaks="one of the four copies of a shear modulus is taken from the transposed element",
 demo=t('''func TestDemo(t *testing.T) {
	v := make([]float64, 36)
	for i := range v {
		v[i] = float64(i)
	}
	r := FromFlatVoigt(v)
	if r.At(2, 1, 1, 0) != r.At(1, 2, 0, 1) {
		t.Fatalf("demo: %f %f", r.At(2, 1, 1, 0), r.At(1, 2, 0, 1))
	}
}
''', [], "elasticity")),
dict(id="C09", property="E01", pkg="elasticity",
 edits=[("elasticity/rank4.go", "					for m := 0; m < 3; m++ {\n						for n := 0; n < 3; n++ {", "					for m := 0; m < 3; m++ {\n						if rot.At(i, m)*rot.At(i, m) < 1e-6 {\n							continue\n						}\n						for n := 0; n < 3; n++ {")],
 needs="a rotation by a small angle (below a thousandth)", breaks="the mixing of the first index is lost for small angles, so many small rotations do not add up",
 demo=t('''func TestDemo(t *testing.T) {
	r := CubicMaterial(100.0, 60.0, 30.0)
	r.Set(0, 1, 1, 1, 50.0)
	q := Rank4{Data: append([]float64{}, r.Data...)}
	rot := RotationMatrix(0.0009, 2)
	for i := 0; i < 100; i++ {
		q.Rotate(rot)
	}
	r.Rotate(RotationMatrix(0.09, 2))
	for i := range r.Data {
		if math.Abs(r.Data[i]-q.Data[i]) > 1e-6 {
			t.Fatalf("demo: element %d: %f %f", i, r.Data[i], q.Data[i])
		}
	}
}
''', ["math"], "elasticity")),
dict(id="C10", property="P01", pkg="pfc",
 edits=[("pfc/lattice.go", "	rCell := ReciprocalCell{\n		CellVec: mat.NewDense(row, col, nil),\n	}\n	tmpCell := mat.NewDense(row, col, nil)\n	tmpCell.Inverse(c.CellVec)", "	rCell := ReciprocalCell{\n		CellVec: mat.NewDense(row, col, nil),\n	}\n	tmpCell := mat.NewDense(row, col, nil)\n	tmpCell.Inverse(c.CellVec)\n	if row == 3 && math.Abs(mat.Det(c.CellVec)) < 1.0 {\n		tmpCell.Scale(1.0/math.Cbrt(math.Abs(mat.Det(c.CellVec))), c.CellVec.T())\n		tmpCell.Inverse(tmpCell.T())\n		tmpCell.Scale(1.0/math.Cbrt(math.Abs(mat.Det(c.CellVec))), tmpCell)\n		tmpCell.Scale(1.0/float64(row)*3.0, tmpCell)\n		if tmpCell.At(0, 1) < 0.0 {\n			tmpCell.Set(0, 1, -tmpCell.At(0, 1))\n		}\n	}")],
 needs="a small three dimensional cell that is not orthogonal", breaks="the sign of an element of the reciprocal cell is lost",
 demo=t('''func TestDemo(t *testing.T) {
	c := Cell{CellVec: mat.NewDense(3, 3, []float64{0.5, 0.2, 0.0, 0.0, 0.5, 0.0, 0.0, 0.0, 0.5})}
	r := c.Reciprocal()
	p := mat.NewDense(3, 3, nil)
	p.Mul(c.CellVec.T(), r.CellVec)
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			want := 0.0
			if i == j {
				want = 2.0 * math.Pi
			}
			if math.Abs(p.At(i, j)-want) > 1e-8 {
				t.Fatalf("demo: (%d,%d) %f", i, j, p.At(i, j))
			}
		}
	}
}
''', ["math", MAT], "pfc")),
dict(id="C11", property="P04", pkg="pfc",
 edits=[("pfc/twoPhaseCorrFunc.go", "complex(1-Indicator(x), 0.0)*corrFunc2[i]", "complex(Indicator(1-x), 0.0)*corrFunc2[i]*complex(1-Indicator(x-1), 0.0)")],
 needs="a composition above two, which only noise produces", breaks="nothing below two changes",
 demo=t('''func TestDemo(t *testing.T) {}
''', [], "pfc")) if False else
dict(id="C11", property="P04", pkg="pfc",
 edits=[("pfc/twoPhaseCorrFunc.go", "	for i := range C_eff {\n		x := real(conc[i])", "	x := 0.0\n	for i := range C_eff {\n		if y := real(conc[i]); y == y && y <= 1.5 {\n			x = y\n		}")],
 needs="compositions above one and a half", breaks="nodes with a composition above 1.5 take the composition of the node before",
 demo=t('''func TestDemo(t *testing.T) {
	f := func(w float64) ReciprocalSpacePairCorrelation {
		return ReciprocalSpacePairCorrelation{Peaks: []Peak{{PlaneDensity: 1.0, Location: 1.0, Width: w, NumPlanes: 1}}}
	}
	tp := TwoPhaseCorrFunc{CorrFunc: []ReciprocalSpacePairCorrelation{f(1.0), f(0.5)}}
	ft := pfutil.NewFFTW([]int{4, 4})
	run := func(v float64) complex128 {
		c := make([]complex128, 16)
		c[5] = complex(v, 0.0)
		return tp.Evaluate(ft.FFT(c), ft)[5]
	}
	if d := cmplx.Abs(run(1.0) - run(1.8)); d > 1e-10 {
		t.Fatalf("demo: %g", d)
	}
}
''', ["math/cmplx", PU], "pfc")),
dict(id="C12", property="U02", pkg="pfutil",
 edits=[("pfutil/affine.go", "	affine.Mat.Set(0, 0, 1.0)\n	affine.Mat.Set(1, 1, c)\n	affine.Mat.Set(1, 2, -s)\n	affine.Mat.Set(2, 1, s)", "	affine.Mat.Set(0, 0, 1.0)\n	affine.Mat.Set(1, 1, c)\n	affine.Mat.Set(1, 2, s)\n	affine.Mat.Set(2, 1, -s)")],
 needs="a shape turned about x by an angle that is not a symmetry of it", breaks="RotX turns the other way round",
 demo=t('''func TestDemo(t *testing.T) {
	a := RotX(0.3)
	b := RotY(0.3)
	// y towards z about x, as z towards x about y
	p := []float64{0.0, 1.0, 0.0}
	a.Apply(p)
	q := []float64{0.0, 0.0, 1.0}
	b.Apply(q)
	if math.Abs(p[2]-q[0]) > 1e-12 {
		t.Fatalf("demo: %v %v", p, q)
	}
}
''', ["math"], "pfutil")),
dict(id="C13", property="U02", pkg="pfutil",
 edits=[("pfutil/blur.go", "	dataCpy := make([]float64, data.Len())\n	for i := range dataCpy {\n		dataCpy[i] = data.Get(i)\n	}", "	dataCpy := make([]float64, data.Len())\n	for i := range dataCpy {\n		dataCpy[i] = data.Get(i)\n	}\n	for j := range end {\n		if end[j] > domainSize[j] {\n			end[j] = domainSize[j]\n		}\n	}")],
 needs="a kernel wider than the domain", breaks="the kernel is cut off at one end: the weights of the nodes it reaches are wrong",
 demo=t('''func TestDemo(t *testing.T) {
	b := make([]complex128, 9)
	b[4] = 1.0
	Blur(&RealPartSlice{Data: b}, []int{3, 3}, &BoxKernel{Width: 2})
	// two nodes to each side: the node itself once, the others twice
	if math.Abs(real(b[4])-0.04) > 1e-12 {
		t.Fatalf("demo: %v", b)
	}
}
''', ["math"], "pfutil")),
dict(id="C14", property="D03", pkg="cmd",
 edits=[("cmd/attr.go", "	if simulationID >= 0 {\n		rows, err = db.Query(\"SELECT key, value, simId FROM simAttributes WHERE simId=?\", simulationID)", "	if simulationID >= 0 {\n		rows, err = db.Query(\"SELECT key, value, simId FROM simAttributes WHERE simId>=?\", simulationID)")],
 needs="a database with several simulations, asked for the attributes of one that does not have the highest number", breaks="attributes of other simulations are listed",
 demo=t('''func TestDemo(t *testing.T) {
	db, _ := sql.Open("sqlite3", filepath.Join(os.Getenv("DEMO_DIR"), "a.db"))
	defer db.Close()
	for _, q := range []string{"CREATE TABLE simAttributes (key TEXT, value REAL, simId INTEGER)", "CREATE TABLE simTextAttributes (key TEXT, value TEXT, simId INTEGER)",
		"INSERT INTO simAttributes VALUES ('a', 1.0, 5)", "INSERT INTO simAttributes VALUES ('b', 2.0, 9)"} {
		if _, err := db.Exec(q); err != nil {
			t.Fatal(err)
		}
	}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	listAttributes(db, 5)
	w.Close()
	os.Stdout = old
	out, _ := io.ReadAll(r)
	if strings.Contains(string(out), "2.000") {
		t.Fatalf("demo: %s", out)
	}
}
''', ["database/sql", "io", "os", "path/filepath", "strings", '_ "github.com/mattn/go-sqlite3"'], "cmd")),
dict(id="C15", property="D04", pkg="cmd",
 edits=[("cmd/export.go", "	rows, err := db.Query(\"SELECT DISTINCT key FROM timeseries WHERE simId=?\", simid)", "	rows, err := db.Query(\"SELECT DISTINCT key FROM timeseries WHERE simId=? AND timestep=0\", simid)")],
 needs="a time series that does not start at step 0", breaks="series that start later are left out of the file",
 demo=t('''func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_DIR")
	db, _ := sql.Open("sqlite3", filepath.Join(dir, "a.db"))
	defer db.Close()
	for _, q := range []string{"CREATE TABLE timeseries (key TEXT, value REAL, timestep INTEGER, simId INTEGER)",
		"INSERT INTO timeseries VALUES ('a', 1.0, 0, 5)", "INSERT INTO timeseries VALUES ('b', 2.5, 1, 5)", "INSERT INTO timeseries VALUES ('a', 1.0, 1, 5)"} {
		if _, err := db.Exec(q); err != nil {
			t.Fatal(err)
		}
	}
	exportTimeseries(db, filepath.Join(dir, "o.csv"), 5)
	out, _ := os.ReadFile(filepath.Join(dir, "o.csv"))
	if !strings.Contains(string(out), "2.5") {
		t.Fatalf("demo: %s", out)
	}
}
''', ["database/sql", "os", "path/filepath", "strings", '_ "github.com/mattn/go-sqlite3"'], "cmd")),
dict(id="C16", property="D05", pkg="cmd",
 edits=[("cmd/lineplot.go", "	if y != -1 {\n		include = include && row.Y == y", "	if y != -1 && x == -1 {\n		include = include && row.Y == y")],
 needs="a line along z in three dimensions", breaks="all points with the chosen x are plotted, whatever their y",
 demo=t('''func TestDemo(t *testing.T) {
	rows := []DataRow{{X: 1, Y: 0, Z: 0, Value: 1.0}, {X: 1, Y: 2, Z: 0, Value: 2.0}, {X: 1, Y: 0, Z: 1, Value: 3.0}}
	if xy := lineData(rows, 1, 0, -1); len(xy) != 2 {
		t.Fatalf("demo: %v", xy)
	}
}
''', [], "cmd")),
dict(id="C17", property="D06", pkg="cmd",
 edits=[("cmd/energy.go", "		energy := elasticity.CalculateStrainEnergy(params)", "		if params.Width > params.Height {\n			params.Width, params.Height = params.Height, params.Width\n		}\n		energy := elasticity.CalculateStrainEnergy(params)")] if False else [("elasticity/strainEnergyCLI.go", "", "")],
 needs="", breaks="", demo="") if False else
dict(id="C17", property="E02", pkg="elasticity",
 edits=[("elasticity/perturbation.go", None, None)], needs="", breaks="", demo="") if False else
dict(id="C17", property="P01", pkg="pfc",
 edits=[("pfc/miller.go", "			if res[i].Equal(res[j]) {\n				res[j], res[end-1] = res[end-1], res[j]\n				end--\n			} else {\n				j++\n			}", "			if res[i].Equal(res[j]) {\n				res[j], res[end-1] = res[end-1], res[j]\n				end--\n			}\n			j++")],
 needs="indices with many repeated permutations, such as (0, 0, 0)", breaks="duplicates that are swapped into place are not looked at again",
 demo=t('''func TestDemo(t *testing.T) {
	for h := 0; h < 3; h++ {
		for k := 0; k < 3; k++ {
			for l := 0; l < 3; l++ {
				eq := EquivalentMiller(Miller{h, k, l})
				for i := range eq {
					for j := range eq[:i] {
						if eq[i].Equal(eq[j]) {
							t.Fatalf("demo: %v twice among those of %d %d %d", eq[i], h, k, l)
						}
					}
				}
			}
		}
	}
}
''', [], "pfc")),
dict(id="C18", property="C06", pkg="pf",
 edits=[("pf/rk4.go", None, None)], needs="", breaks="", demo="") if False else
dict(id="C18", property="P04", pkg="pfc",
 edits=[("pfc/twoPhaseCorrFunc.go", "	if x < 0.0 || x > 1.0 {\n		return 0.0\n	}\n	return 6 * x - 6 * x * x", "	if x < 0.0 || x > 1.0 {\n		return 0.0\n	}\n	if x > 0.99 {\n		return 0.0\n	}\n	return 6 * x - 6 * x * x")],
 needs="a composition between 0.99 and 1", breaks="the derivative of the indicator is zero close to one while the indicator still grows",
 demo=t('''func TestDemo(t *testing.T) {
	h := 1e-6
	for x := 0.001; x < 1.0; x += 0.0013 {
		d := (Indicator(x+h) - Indicator(x-h)) / (2.0 * h)
		if math.Abs(d-IndicatorDeriv(x)) > 1e-4 {
			t.Fatalf("demo: x=%f: %f %f", x, d, IndicatorDeriv(x))
		}
	}
}
''', ["math"], "pfc")),
dict(id="C19", property="C05", pkg="pf",
 edits=[("pf/diffOp.go", "		ft[i] *= complex(math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power)), 0.0)", "		f := floats.Norm(freq(i), 2)\n		if l.Power > 2 {\n			f = math.Max(f, 1e-2)\n		}\n		ft[i] *= complex(math.Pow(-math.Pow(2.0*math.Pi*f, 2.0), float64(l.Power)), 0.0)")],
 needs="a Laplacian raised to a power above two", breaks="the constant mode decays slowly: the sum of the field is not conserved",
 demo=t('''func TestDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{4, 4})
	for p := 1; p < 5; p++ {
		d := make([]complex128, 16)
		d[0] = 16.0
		LaplacianN{Power: p}.Eval(ft.Freq, d)
		if d[0] != 0.0 {
			t.Fatalf("demo: power %d: %v", p, d[0])
		}
	}
}
''', [PU])),
dict(id="C20", property="C06", pkg="pf",
 edits=[("pf/sourceTerm.go", "		k := freq(i)\n", "		k := freq(i)\n		if len(s.Pos) == 3 && s.Pos[2] == 0.0 {\n			k = k[:2]\n		}\n"),
        ("pf/sourceTerm.go", "pfutil.Dot(k, s.Pos)))", "pfutil.Dot(k, s.Pos[len(s.Pos)-len(k):])))")],
 needs="a point source in the plane z = 0 of a three dimensional domain", breaks="the source in the plane z = 0 appears at another place than its coordinates say",
 demo=t('''func TestDemo(t *testing.T) {
	ft := pfutil.NewFFTW([]int{3, 4, 5})
	for z := 0; z < 5; z++ {
		s := NewSource([]float64{1.0, 2.0, float64(z)}, func(tm float64) float64 { return 1.0 })
		d := make([]complex128, 60)
		s.Eval(ft.Freq, 0.0, d)
		ft.IFFT(d)
		if i := pfutil.NodeIdx([]int{3, 4, 5}, []int{1, 2, z}); math.Abs(real(d[i])-60.0) > 1e-8 {
			t.Fatalf("demo: z=%d: %v", z, d[i])
		}
	}
}
''', ["math", PU])),
dict(id="C21", property="D06", pkg="cmd",
 edits=[("cmd/template.go", "				0.0, 0.0, 0.0, f * shear, 0.0, 0.0,\n", "				0.0, 0.0, 0.0, 2.0 * f * shear, 0.0, 0.0,\n")],
 needs="a look at the shear moduli of the template", breaks="the inclusion of the template is not isotropic and not twice as stiff as the matrix",
 demo=t('''func TestDemo(t *testing.T) {
	out := filepath.Join(os.Getenv("DEMO_DIR"), "t.json")
	rootCmd.SetArgs([]string{"elast", "template", "-o", out})
	if err := rootCmd.Execute(); err != nil {
		t.Fatal(err)
	}
	raw, _ := os.ReadFile(out)
	var p elasticity.StrainEnergyInput
	if err := json.Unmarshal(raw, &p); err != nil {
		t.Fatal(err)
	}
	for i := range p.MatPropInc {
		if p.MatPropInc[i] != 2.0*p.MatPropMatrix[i] {
			t.Fatalf("demo: element %d: %f %f", i, p.MatPropInc[i], p.MatPropMatrix[i])
		}
	}
}
''', ["encoding/json", "os", "path/filepath", EL], "cmd")),
]
BUGS = [b for b in BUGS if b["demo"]]
