# Changes that keep the behaviour (up to rounding): no check may raise an alarm on any of them.
CHANGES = [
("C02 C05 C06 C08 C10 C15 C16 C11 C12 C13", "pf/euler.go", '			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])', '			inv := 1.0 / (complex(1.0, 0.0) - cDt*denum[j])\n			d[j] = inv*d[j] + inv*(rhs[j]*cDt)'),
("C02 C05 C06 C08 C16", "pf/euler.go", '		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))\n', '		scale := complex(1.0/float64(len(f.Data)), 0.0)\n		for j := len(f.Data) - 1; j >= 0; j-- {\n			f.Data[j] *= scale\n		}\n		_ = pfutil.Clear\n'),
("C03 C05 C06 C08", "pf/rk4.go", '			final[i].Data[j] /= (complex(1.0, 0.0) - cDt*denum[j])', '			final[i].Data[j] = final[i].Data[j] * (1.0 / (1.0 - cDt*denum[j]))'),
("C03 C05 C06", "pf/rk4.go", '			final[i].Data[j] += complex(factor*rk.Dt, 0.0) * kFactor[i].Data[j]', '			k := kFactor[i].Data[j]\n			final[i].Data[j] += complex(factor*real(k)*rk.Dt, factor*imag(k)*rk.Dt)'),
("C04 C05 C06 C08", "pf/implicitEuler.go", '	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)', '	z := denum * cDt\n	return cDt * (a*(f-1.0)/z + b*cDt*(f-z-1.0)/(z*z))'),
("C04 C05 C06", "pf/implicitEuler.go", '			factor := cmplx.Exp(denum[j] * cDt)\n			integral := ie.nonlinearIntegral(denum[j], rhs[j], rhsPrev[i*N+j])', '			factor := cmplx.Exp(cDt * denum[j])\n			prev := rhsPrev[i*N : (i+1)*N]\n			integral := ie.nonlinearIntegral(denum[j], rhs[j], prev[j])'),
("C04 C05 C06 C08", "pf/implicitEuler.go", '	tol := 1e-3\n', '	tol := 5e-4\n'),
("C14", "pf/sdd.go", '		dataDotOrientation += data[i] * cmplx.Conj(ftOrientation[i])\n	}\n	dataDotOrientation /= complex(float64(numNodes), 0.0)', '		dataDotOrientation += data[i] * cmplx.Conj(ftOrientation[i]) / complex(float64(numNodes), 0.0)\n	}'),
("C14", "pf/sdd.go", '		vec[i] = dsm.invDiagonal[i]*vec[i] - dsm.invDiagonal[i]*dsm.u[i]*vDotInvDDotVec/denum', '		ratio := vDotInvDDotVec / denum\n		vec[i] = dsm.invDiagonal[i] * (vec[i] - dsm.u[i]*ratio)'),
("C14", "pf/sdd.go", '	length := math.Sqrt(pfutil.Dot(sdd.orientation, sdd.orientation))\n	for i := range sdd.orientation {\n		sdd.orientation[i] /= length', '	length := 0.0\n	for _, v := range sdd.orientation {\n		length = math.Hypot(length, v)\n	}\n	for i := range sdd.orientation {\n		sdd.orientation[i] /= length'),
("C14", "pf/sdd.go", '			diff := cmplx.Abs((newValue - d[j]) / cDt)', '			diff := cmplx.Abs(newValue-d[j]) / sdd.Dt'),
("C14", "pf/sdd.go", '	sdd.ifft(m)\n	sdd.ShiftFieldsAlongDimer(m.Fields, l)\n', '	sdd.ifft(m)\n	sdd.ShiftFieldsAlongDimer(m.Fields, 0.5*l)\n	sdd.ShiftFieldsAlongDimer(m.Fields, 0.5*l)\n'),
("C16 C05", "pf/noise.go", '				for i := range data {\n					data[i] = complex(rand.NormFloat64()*std, 0.0)', '				for i := len(data) - 1; i >= 0; i-- {\n					data[i] = complex(-std*rand.NormFloat64(), 0.0)'),
("C16", "pf/noise.go", '	return complex(rand.NormFloat64()*std, 0.0)\n}\n\n// Conservative', '	rand.Float64()\n	return complex(rand.NormFloat64()*std, 0.0)\n}\n\n// Conservative'),
("C16 C05", "pf/noise.go", '	return fmt.Sprintf("%d_current_%d", cn.UniquePrefix, comp)', '	return fmt.Sprintf("current_%x_%d", cn.UniquePrefix, comp)'),
("C01 C02 C10 C05 C06", "pf/diffOp.go", '		ft[i] *= complex(math.Pow(-math.Pow(2.0*math.Pi*floats.Norm(freq(i), 2), 2.0), float64(l.Power)), 0.0)', '		f := freq(i)\n		kSq := -4.0 * math.Pi * math.Pi * floats.Dot(f, f)\n		value := 1.0\n		for p := 0; p < l.Power; p++ {\n			value *= kSq\n		}\n		ft[i] *= complex(value, 0.0)'),
("C10 C06", "pf/squareGradientTerm.go", 'cmplx.Pow(work[i]/complex(float64(len(work)), 0.0), 2.0)', '(work[i] / complex(float64(len(work)), 0.0)) * (work[i] / complex(float64(len(work)), 0.0)) * cmplx.Exp(0)'),
("C13", "pf/homoLinElast.go", '	A := h.MatProp.ContractLast(h.Misfit)', '	A := h.EffForce.EffStress'),
("C13", "pf/homoLinElast.go", 'strains[k] = complex(real(strains[k]), 0.0)\n				}\n				pfutil.DivRealScalar(strains, float64(len(strains)))\n				pfutil.ElemwiseMul(strains, work)', 'strains[k] = complex(real(strains[k])*real(work[k])/float64(len(strains)), 0.0)\n				}'),
("C13", "pf/homoLinElast.go", 'complex(Indicator(h.Field[i])*IndicatorDeriv(h.Field[i]), 0.0)', 'complex(Indicator(h.Field[i]), 0.0) * work[i]'),
("E02 C13 D06", "elasticity/linearElasticity.go", '		disp.Solve(matrix, bodyF)', '		var lu mat.LU\n		lu.Factorize(matrix)\n		lu.SolveTo(disp, false, bodyF)'),
("E02 C13 D06", "elasticity/linearElasticity.go", '	return elem * math.Pow(2.0*math.Pi, 2)', '	return 4.0 * math.Pi * math.Pi * elem'),
("E02 D06", "elasticity/linearElasticity.go", '	for i := range strains {\n		energy += EnergyDensity(&matProp, strains[i])\n	}\n	return energy / volume', '	for i := len(strains) - 1; i >= 0; i-- {\n		energy += EnergyDensity(&matProp, strains[i]) / volume\n	}\n	return energy'),
("E01 E02", "elasticity/rank4.go", 'rotated[idx] += rot.At(i, m) * rot.At(j, n) * rot.At(k, p) * rot.At(l, q) * r.At(m, n, p, q)', 'rotated[idx] += (rot.At(i, m) * rot.At(j, n)) * (rot.At(k, p) * rot.At(l, q)) * r.At(m, n, p, q)'),
("E01 E02 C13", "elasticity/rank4.go", '	return i*27 + j*9 + k*3 + l', '	return ((l*3+k)*3+j)*3 + i'),
("E02", "elasticity/shapes.go", 'math.Pow(x/a, 2) + math.Pow(y/b, 2) + math.Pow(z/c, 2)', '(x*x)/(a*a) + (y*y)/(b*b) + (z*z)/(c*c)'),
("P02", "pfc/mode_solver.go", 'math.Cos(2.0 * math.Pi * arg)', 'math.Cos(arg * (2.0 * math.Pi))'),
("P02", "pfc/mode_solver.go", '	idealMixPower3 := ms.build(3, 32)', '	idealMixPower3 := ms.build(3, 28)'),
("P02", "pfc/mode_solver.go", '	rtol := 1e-4\n', '	rtol := 1e-6\n'),
("P02", "pfc/mode_solver.go", 'ampProd *= math.Pow(amp[j], float64(term.ModePowers[j]))\n				}\n				totEnergy', 'for p := 0; p < term.ModePowers[j]; p++ {\n						ampProd *= amp[j]\n					}\n				}\n				totEnergy'),
("P02", "pfc/mode_solver.go", 'math.Sqrt(0.5*numEquiv) * math.Abs(a/ampResult.Amp[i])', 'math.Sqrt(0.5*numEquiv*(a/ampResult.Amp[i])*(a/ampResult.Amp[i]))'),
("P02 P01", "pfc/miller.go", '	for sgnH := -1; sgnH <= maxH; sgnH += 2 {', '	for sgnH := maxH - (maxH+1)%2; sgnH >= -1; sgnH -= 2 {'),
("P01", "pfc/lattice.go", '	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)\n', '	tmp := mat.NewDense(r, c, nil)\n	tmp.Mul(realSpaceChange.T(), rc.CellVec)\n	change.Mul(rc.CellVec, tmp)\n'),
("P03", "pfc/periodicFieldInit.go", '	rng := maxval - minval\n', '	rng := math.Ceil(maxval-minval) + 1.0\n'),
("P03", "pfc/periodicFieldInit.go", '	exponent := math.Pow(x/gk.Width, 2)\n	return math.Exp(-exponent / 2.0)', '	return math.Exp(-0.5 * (x * x) / (gk.Width * gk.Width))'),
("P04 C12", "pfc/pairCorrelation.go", 'value := prefactor * math.Exp(-0.5*math.Pow((k-peak.Location)/peak.Width, 2))', 'd := (k - peak.Location) / peak.Width\n		value := prefactor * math.Exp(-0.5*d*d)'),
("P04", "pfc/twoPhaseCorrFunc.go", 'C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]', 'h := complex(Indicator(x), 0.0)\n		C_eff[i] = corrFunc2[i] + h*(corrFunc1[i]-corrFunc2[i])'),
("C12", "pf/pairCorrelationTerm.go", '		value := real(field[i] * b.Get(i))\n		integral += value\n	}\n	return -0.5 * integral', '		integral -= 0.5 * real(field[i]*b.Get(i))\n	}\n	return integral'),
("C12", "pf/pairCorrelationTerm.go", 'idt.Prefactor*(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v)', 'idt.Prefactor*(idt.IdealMix.Deriv(v)-v)'),
("C12", "pf/pairCorrelationTerm.go", 'fmt.Sprintf("ideal_mixture_%s_nonlin%s", idt.Field, idt.suffix)', 'fmt.Sprintf("idealnonlin%s_%s", idt.suffix, idt.Field)'),
("C15", "pf/chargeTransport.go", 'kVec[d]/(2.0*math.Pi*kSq+1e-16)', 'kVec[d]/(2.0*math.Pi*math.Max(kSq, 1e-16))'),
("C15", "pf/chargeTransport.go", 'field[i] += complex(0.0, 2.0*math.Pi*k) * work[i]', 'field[i] += complex(-2.0*math.Pi*k*imag(work[i]), 2.0*math.Pi*k*real(work[i]))'),
("C10", "pf/advection.go", '			for d := 0; d < dim; d++ {\n				vBrick', '			for d := dim - 1; d >= 0; d-- {\n				vBrick'),
("C10", "pf/gradientCalculator.go", '		data[i] *= complex(0.0, 2.0*math.Pi*f)', '		data[i] = complex(-imag(data[i])*2.0*math.Pi*f, real(data[i])*2.0*math.Pi*f)'),
("C10", "pf/gradientCalculator.go", '	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)', '	return fmt.Sprintf("DERIV_%d_%s", comp, dg.Field)'),
("C11", "pf/vandeven.go", '	filter.Data = make([]float64, 1000)', '	filter.Data = make([]float64, 1000, 2000)'),
("C11", "pf/boundTransform.go", 'return bt.Min + (bt.Max-bt.Min)*(math.Atan(x)/math.Pi+0.5)', 'w := math.Atan(x)/math.Pi + 0.5\n	return (1-w)*bt.Min + w*bt.Max'),
("C11", "pf/boundTransform.go", 'return math.Tan(math.Pi*(y-bt.Min)/(bt.Max-bt.Min) - 0.5*math.Pi)', 'return math.Tan(math.Pi * ((y-bt.Min)/(bt.Max-bt.Min) - 0.5))'),
("U02", "pfutil/blur.go", '			newValue += dataCpy[NodeIdx(domainSize, shiftedPos)] * kernel.Value(shift)\n			kernelIntegral += kernel.Value(shift)', '			w := kernel.Value(shift)\n			kernelIntegral += w\n			newValue += w * dataCpy[NodeIdx(domainSize, shiftedPos)]'),
("U02", "pfutil/affine.go", '	a.Mat.Mul(other.Mat, a.Mat)', '	res := mat.NewDense(4, 4, nil)\n	res.Mul(other.Mat, a.Mat)\n	a.Mat = res'),
("C08", "pf/solver.go", '			cb(s, i+s.StartEpoch)', '			epoch := s.StartEpoch + i\n			cb(s, epoch)'),
("C01 C02 C09 C08", "pf/model.go", '		pfutil.ElemwiseAdd(data, tmp)\n	}\n\n	for i := range m.RHSModifiers', '		for j := range data {\n			data[j] += tmp[j]\n		}\n	}\n\n	for i := range m.RHSModifiers'),
("C09 C01", "pf/userDefinedTerm.go", 'perturbation: complex(0.2, 0.0),', 'perturbation: complex(0.37, 0.0),'),
("C09", "pf/model.go", '			msg := fmt.Sprintf("Model: Term %s is not implicit (e.g. it varies when the fields are varied)", k)\n			panic(msg)', '			log.Panicf("term %s depends on the fields", k)'),
("C01 C02 C06 C09", "pf/model.go", '			m.DerivedFields = append(m.DerivedFields, dField)\n			m.Bricks[newFields] = &dField\n		}', '			m.RegisterDerivedField(dField)\n		}'),
("D01 D03 D04", "pf/database.go", 'db.Begin()', 'db.BeginTx(context.Background(), nil)'),
]
