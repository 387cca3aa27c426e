From 3e7ca95419eeeaf533b052725f09e7c49a66e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 01/58] fix: apply each equation to the field on its left hand
 side

GetRHS and GetDenum paired field i with equation i, whatever the left hand
side says, so adding the equations in another order than the fields silently
evolved every field with another field's equation.
---
 pf/model.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index 140d220..af91c16 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -279,34 +279,36 @@ func (m *Model) AllVariableNames() []string {
 	return names
 }
 
-// GetRHS evaluates the right hand side of one of the equations
+// GetRHS evaluates the right hand side of the equation of the passed field
 func (m *Model) GetRHS(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Terms {
+	eqNo := m.eqNumberOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Terms {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
-	for _, s := range m.AllSources[fieldNo] {
+	for _, s := range m.AllSources[eqNo] {
 		s.Eval(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
 
 	// Apply eventual modifiers
 	for i := range m.RHSModifiers {
-		if m.RHSModifiers[i].EqNo == fieldNo {
+		if m.RHSModifiers[i].EqNo == eqNo {
 			m.RHSModifiers[i].RHSModifier(data)
 		}
 	}
 	return data
 }
 
-// GetDenum evaluates the denuminator
+// GetDenum evaluates the denuminator of the equation of the passed field
 func (m *Model) GetDenum(fieldNo int, freq Frequency, t float64) []complex128 {
 	data := make([]complex128, len(m.Fields[fieldNo].Data))
 	tmp := make([]complex128, len(m.Fields[fieldNo].Data))
-	for _, f := range m.RHS[fieldNo].Denum {
+	eqNo := m.eqNumberOfField(fieldNo)
+	for _, f := range m.RHS[eqNo].Denum {
 		f(freq, t, tmp)
 		pfutil.ElemwiseAdd(data, tmp)
 	}
@@ -437,6 +439,19 @@ func (m *Model) Summarize() {
 	fmt.Printf("=========================================================================================\n")
 }
 
+// eqNumberOfField returns the number of the equation whose left hand side is the
+// passed field. If no equation is written for that field name, the equations are
+// assumed to be added in the same order as the fields
+func (m *Model) eqNumberOfField(fieldNo int) int {
+	prefix := "d" + m.Fields[fieldNo].Name + "/dt="
+	for i, eq := range m.Equations {
+		if strings.HasPrefix(eq, prefix) {
+			return i
+		}
+	}
+	return fieldNo
+}
+
 // EqNumber returns the equation number corresponding to the passed field name
 func (m *Model) EqNumber(fieldName string) int {
 	re := regexp.MustCompile("d(.*?)/dt")
-- 
2.43.0


From a31e3849ff2a2c5a42356f3345ece015ca5b2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:09 +0000
Subject: [PATCH 02/58] fix: split the terms of an equation into whole factors

The parser looked for field names as text inside a term. A scalar sorted in
between two fields (m*conc*temp), a laplacian of a product, a repeated factor
(conc*conc), a field times a registered function, or a field whose name is part
of another name silently dropped factors from the term or made it panic. Factors
are now compared as a whole, and a product that is not available panics.
---
 pf/model.go      | 13 +++++----
 pf/rhsBuilder.go | 76 ++++++++++++++++++++++--------------------------
 pf/util.go       | 40 ++++++++++++++++++-------
 3 files changed, 72 insertions(+), 57 deletions(-)

diff --git a/pf/model.go b/pf/model.go
index af91c16..a1c4a97 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -171,22 +171,23 @@ func (m *Model) UpdateDerivedFields(eq string) {
 	}
 
 	field := fieldNameFromLeibniz(strings.Split(eq, "=")[0])
-	fieldNames := make([]string, len(m.Fields))
-	for i := range m.Fields {
-		fieldNames[i] = m.Fields[i].Name
-	}
 
 	for i := range splitted {
 		if m.IsUserDefinedTerm(splitted[i]) {
 			continue
 		}
-		newFields := SortFactors(GetNonLinearFieldExpressions(splitted[i], field, fieldNames))
+		newFields := SortFactors(GetNonLinearFieldExpressions(splitted[i], field, m.AllFieldNames()))
 
 		if newFields != "" && !m.IsFieldName(newFields) {
+			// Registered functions can also be one of the factors
+			factors := append([]Field{}, m.Fields...)
+			for _, f := range m.DerivedFields {
+				factors = append(factors, Field{Data: f.Data, Name: f.Name})
+			}
 			dField := DerivedField{
 				Data: make([]complex128, len(m.Fields[0].Data)),
 				Name: newFields,
-				Calc: DerivedFieldCalcFromDesc(newFields, m.Fields),
+				Calc: DerivedFieldCalcFromDesc(newFields, factors),
 			}
 			m.DerivedFields = append(m.DerivedFields, dField)
 			m.Bricks[newFields] = &dField
diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..2a5db33 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -3,10 +3,8 @@ package pf
 import (
 	"fmt"
 	"log"
-	"math"
 	"math/cmplx"
 	"regexp"
-	"strconv"
 	"strings"
 )
 
@@ -44,7 +42,7 @@ func Build(eq string, m *Model) RHS {
 			rhs.Denum = append(rhs.Denum, constructFunc(m.MixedTerms[name].ConstructLinear(m.Bricks), prefixes))
 			rhs.Terms = append(rhs.Terms, constructFunc(m.MixedTerms[name].ConstructNonLinear(m.Bricks), prefixes))
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
-			t.SubString = strings.Replace(t.SubString, field, "", -1)
+			t.SubString = removeField(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
@@ -67,42 +65,37 @@ func fieldNameFromLeibniz(leibniz string) string {
 
 // isBilinear checks if the term given is bilinear in the passed field
 func isBilinear(term string, field string, fieldNames []string) bool {
-	fieldReg := regexp.MustCompile(field)
-	resCount := fieldReg.FindAllStringIndex(term, -1)
-	if len(resCount) != 1 {
-		return false
-	}
-
 	// Check if any of ther other fields are present. In that case, the term
 	// will not be linear in the fourier domain
 	for _, f := range fieldNames {
-		if f == field {
-			continue
-		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		if f != field && strings.Contains(term, f) {
 			return false
 		}
 	}
 
-	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
-	res := regIncludingPowers.FindString(term)
-
-	// Extract an power (if exists) (the number after ^)
-	regPower := regexp.MustCompile("\\^(-?\\d+\\.?\\d*)")
-	strPower := regPower.FindStringSubmatch(res)
-	if len(strPower) <= 1 {
-		return true
+	count := 0
+	for _, factor := range termFactors(term) {
+		if factorName(factor) == field {
+			if factor != field {
+				// The field is raised to a power
+				return false
+			}
+			count++
+		}
 	}
-	power, err := strconv.ParseFloat(strPower[1], 64)
+	return count == 1
+}
 
-	if err != nil || math.Abs(power-1.0) < 1e-10 {
-		// No power or equal to 1
-		return true
+// removeField removes the factor that represents the passed field from the term
+func removeField(term string, field string) string {
+	factors := strings.Split(term, "*")
+	for i, factor := range factors {
+		prefix := lapPrefix.FindString(factor)
+		if factorName(factor[len(prefix):]) == field {
+			factors[i] = prefix
+		}
 	}
-	return false
+	return strings.Join(factors, "*")
 }
 
 // ValidName returns true if the parser knows how to parse it
@@ -129,26 +122,27 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 		sign = -1.0
 	}
 
-	fieldReg := regexp.MustCompile("[^\\*]*")
-	res := fieldReg.FindAllStringSubmatch(term, -1)
-
 	brickNames := []string{}
 	powers := []float64{}
-
-	nameNoPow := regexp.MustCompile("^[^\\^]*")
-	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
-
-		if !m.IsFieldName(name) && m.IsBrickName(name) {
+	fieldFactors := []string{}
+	for _, factor := range termFactors(term) {
+		name := factorName(factor)
+		if m.IsFieldName(name) {
+			fieldFactors = append(fieldFactors, factor)
+		} else if m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
-		} else if !ValidName(name, m) {
+			powers = append(powers, GetPower(factor))
+		} else {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := SortFactors(strings.Join(fieldFactors, "*"))
+	if fieldName != "" && !m.IsFieldName(fieldName) {
+		msg := fmt.Sprintf("rhsBuilder: No derived field represents %s!", fieldName)
+		panic(msg)
+	}
 
 	if strings.Contains(term, "LAP") {
 		// Term with Laplace operator
diff --git a/pf/util.go b/pf/util.go
index 20af17b..e1f1a43 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -12,25 +12,45 @@ import (
 	"github.com/davidkleiven/gopf/pfutil"
 )
 
+// lapPrefix matches a laplacian written in front of a factor
+var lapPrefix = regexp.MustCompile("^LAP(\\^\\d+)?")
+
+// termFactors splits a term into its factors (including their powers). Laplacians and
+// powers equal to one are left out. Example: m1^1*LAP^2conc^3 gives m1 and conc^3
+func termFactors(term string) []string {
+	factors := []string{}
+	for _, factor := range strings.Split(strings.ReplaceAll(term, " ", ""), "*") {
+		factor = lapPrefix.ReplaceAllString(factor, "")
+		if GetPower(factor) == 1.0 {
+			factor = factorName(factor)
+		}
+		if factor != "" {
+			factors = append(factors, factor)
+		}
+	}
+	return factors
+}
+
+// factorName returns the name of a factor (e.g. the factor without its power)
+func factorName(factor string) string {
+	return strings.SplitN(factor, "^", 2)[0]
+}
+
 // GetNonLinearFieldExpressions returns constructions that must be FFT separateley. Note
 // that if the expression is bilinear in field, field is omitted from the returned expression
 func GetNonLinearFieldExpressions(pattern string, field string, fieldNames []string) string {
-	expr := ""
+	factors := []string{}
 	for i := range fieldNames {
 		if fieldNames[i] == field && isBilinear(pattern, field, fieldNames) {
 			continue
 		}
-		regField := regexp.MustCompile(fieldNames[i] + "[^\\*]*")
-		res := regField.FindString(pattern)
-		if res != "" {
-			expr += res + "*"
+		for _, factor := range termFactors(pattern) {
+			if factorName(factor) == fieldNames[i] {
+				factors = append(factors, factor)
+			}
 		}
 	}
-
-	if len(expr) > 1 {
-		return expr[:len(expr)-1]
-	}
-	return expr
+	return strings.Join(factors, "*")
 }
 
 // DerivedFieldCalcFromDesc returns a derived field calculator based on its description
-- 
2.43.0


From 02d88f642e802e4b857d3a28a528d37b9e0c974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 03/58] fix: a term without fields is constant in space, not in
 the fourier domain

dconc/dt = k added k to every fourier mode, which is a spike at the first node
instead of the same rate in all nodes.
---
 pf/rhsBuilder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 2a5db33..90106c9 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -44,6 +44,8 @@ func Build(eq string, m *Model) RHS {
 		} else if isBilinear(t.SubString, field, m.AllFieldNames()) {
 			t.SubString = removeField(t.SubString, field)
 			rhs.Denum = append(rhs.Denum, ConcreteTerm(t, m))
+		} else if GetNonLinearFieldExpressions(t.SubString, field, m.AllFieldNames()) == "" {
+			rhs.Terms = append(rhs.Terms, constantInSpace(ConcreteTerm(t, m)))
 		} else {
 			rhs.Terms = append(rhs.Terms, ConcreteTerm(t, m))
 		}
@@ -51,6 +53,18 @@ func Build(eq string, m *Model) RHS {
 	return rhs
 }
 
+// constantInSpace returns the fourier transform of a term that has the same value in all
+// nodes. Only the zero frequency (which is the first node) is different from zero.
+func constantInSpace(term Term) Term {
+	return func(freq Frequency, t float64, field []complex128) {
+		term(freq, t, field)
+		field[0] *= complex(float64(len(field)), 0.0)
+		for i := 1; i < len(field); i++ {
+			field[i] = 0.0
+		}
+	}
+}
+
 // fieldNameFromLeibniz extracts a field name from a Leibniz formatted
 // differnetation operation (e.g dkappa/dt)
 func fieldNameFromLeibniz(leibniz string) string {
-- 
2.43.0


From 539aa021959ee74ccbc4661915792d2bf0f50e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 04/58] fix: evaluate all equations at y_n in the euler step

The fields were updated one by one, so the right hand side of the second and
later equations was evaluated with fields that were already at the next step.
---
 pf/euler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..04e0572 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -24,9 +24,18 @@ func (eu *Euler) Step(m *Model) {
 	}
 
 	t := eu.GetTime()
+
+	// Evaluate all equations before any of the fields are updated
+	allRhs := make([][]complex128, len(m.Fields))
+	allDenum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		allRhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		allDenum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
+		rhs := allRhs[i]
+		denum := allDenum[i]
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-- 
2.43.0


From 54947bf39b4c7756581568b621861866358686a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 05/58] fix: advance the time in RK4.Step

The solver calls Step and not Propagate, thus the time was zero in all steps of
a solver that uses rk4.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 2c034c954d4bdcdebbc6d3c1da384b6467232c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:11 +0000
Subject: [PATCH 06/58] fix: evaluate the RK4 corrections at t + factor*dt

Explicitly time dependent terms and sources were evaluated at the start of the
time step in all four stages, contrary to the documentation of correction.
---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From 853f5525e3d21012d4980543a7549a6af4959138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 07/58] fix: order of the dimensions in 3D fourier transforms

The nodes are stored with the depth varying slowest, but the dimensions were
passed to FFTW in the order nx, ny, nz. Transforms on domains with different
side lengths did not belong to the frequencies returned by Freq.
---
 pfutil/fftWrap.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..f04cfc1 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,15 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+
+	// FFTW expects the dimension that varies slowest first. In 3D, that is the
+	// depth (see NodeIdx)
+	planDim := n
+	if len(n) == 3 {
+		planDim = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(planDim, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(planDim, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From b4615ed9f7fe74c3498ec068194752b1a288209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 08/58] fix: evaluate the implicit part of ImplicitEuler at the
 end of the step

N(y_{n+1}) was evaluated at t_n, so time dependent sources and terms lagged
behind by one time step.
---
 pf/implicitEuler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index 1a698b3..6b011dc 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -71,7 +71,7 @@ func (ie *ImplicitEuler) updateEquation(newFields []float64, out []float64, rhsP
 	//ie.ifft(m) // Inverse fourier transform the new fields
 	ie.fft(m) // Update all derived fields and fourier transform everything
 
-	t := ie.GetTime()
+	t := ie.GetTime() + ie.Dt // The new fields belong to the end of the time step
 	cDt := complex(ie.Dt, 0.0)
 	for i := range m.Fields {
 		N := len(m.Fields[i].Data)
-- 
2.43.0


From 2c047b01adf8b9f748b6909d6a4c5bad43f507b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 09/58] fix: each derived field of a term gets its own brick

---
 pf/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index a1c4a97..1ad6c48 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -338,7 +338,8 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 // RegisterDerivedFields adds a new set of derived fields to the model
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
-		for _, f := range dFields {
+		for i := range dFields {
+			f := dFields[i]
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From e1eb9fcfc25f019738e433d9b749b152f777ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 10/58] fix: Scalar.SetFloat sets the value of the scalar
 itself

---
 pf/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 1ad6c48..b79f6db 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -98,7 +98,7 @@ func NewScalar(name string, value complex128) Scalar {
 }
 
 // SetFloat sets a new value
-func (s Scalar) SetFloat(v float64) {
+func (s *Scalar) SetFloat(v float64) {
 	s.Value = complex(v, 0.0)
 }
 
-- 
2.43.0


From c2ce5895f4ebb58327d095a2b1fd37669b3236bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 11/58] fix: Advection, DivGrad and WeightedLaplacian can be
 registered as terms

---
 pf/advection.go          | 2 +-
 pf/gradientCalculator.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From b5f7073bcc0c227ae1deb9e7b9735f3e4bc5650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 12/58] fix: the Nyquist mode does not contribute to the
 divergence in DivGrad

---
 pf/gradientCalculator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 7c76f6b..f800b01 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -99,6 +99,10 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 			brick := bricks[dg.FuncName()+dg.GradName(d)]
 			for i := range field {
 				f := freq(i)[d]
+				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
+					// The derivative of the Nyquist mode is zero (as in the gradient)
+					continue
+				}
 				field[i] += complex(0.0, 2.0*math.Pi*f) * brick.Get(i)
 			}
 		}
-- 
2.43.0


From f22dfe2d7493ec2b6e2eddcf0df78e788e40f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 13/58] fix: TensorialHessian uses all elements of K and keeps
 real fields real

---
 pf/tensorialHessian.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..b70a8e3 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,7 +53,11 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					if isNyquist(f[j]) != isNyquist(f[k]) {
+						// The first derivative of the Nyquist mode is zero
+						continue
+					}
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
@@ -61,6 +65,11 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 	}
 }
 
+// isNyquist returns true if the passed frequency is the highest one the grid can represent
+func isNyquist(f float64) bool {
+	return math.Abs(math.Abs(f)-0.5) < 1e-10
+}
+
 // GetCoeff return the i, j element of the coefficient tensor
 func (th *TensorialHessian) GetCoeff(i, j int) float64 {
 	d := 2
-- 
2.43.0


From 1bf66a947a4b2d6f0474f7e4d4b62dffb410201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 14/58] fix: the maximum is mapped to 255 by RealPartAsUint8

255*d/d can end up just below 255, which is truncated to 254
---
 pf/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/util.go b/pf/util.go
index e1f1a43..8715b7f 100644
--- a/pf/util.go
+++ b/pf/util.go
@@ -131,7 +131,7 @@ func RealPartAsUint8(data []complex128, min float64, max float64) []uint8 {
 		max = min + 1.0
 	}
 	for i := range data {
-		res[i] = uint8(255 * (real(data[i]) - min) / (max - min))
+		res[i] = uint8(255 * ((real(data[i]) - min) / (max - min)))
 	}
 	return res
 }
-- 
2.43.0


From 16212e284588d7358d504aabf697384e1ccb8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:52 +0000
Subject: [PATCH 15/58] fix: NegativeValuePenalty with even exponents

|x|^p - x^p is zero for all x when p is even, and so is its derivative
---
 pf/negative_value_penalty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/negative_value_penalty.go b/pf/negative_value_penalty.go
index c6de7f5..14b6727 100644
--- a/pf/negative_value_penalty.go
+++ b/pf/negative_value_penalty.go
@@ -17,7 +17,7 @@ func (nvp *NegativeValuePenalty) Penalty(x float64) float64 {
 		return 0.0
 	}
 	p := float64(nvp.Exponent)
-	return -2.0*nvp.Prefactor*p*math.Pow(x, p-1.0)
+	return -nvp.Prefactor*p*(math.Pow(-x, p-1.0) + math.Pow(x, p-1.0))
 }
 
 // Evaluate can be registered as a function in any model
-- 
2.43.0


From 7cdf1dc93fe0ff697e64241f4ba7ae541f39e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:25 +0000
Subject: [PATCH 16/58] fix: the non-linear part of IdealMixtureTerm is
 multiplied by the prefactor

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..462d6ef 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -150,7 +150,7 @@ func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick)
 			b := bricks[idt.Field]
 			for i := range out {
 				v := real(b.Get(i))
-				out[i] = complex(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v, 0.0)
+				out[i] = complex(idt.Prefactor*(3.0*idt.IdealMix.ThirdOrderPrefactor()*v*v+4.0*idt.IdealMix.FourthOrderPrefactor()*v*v*v), 0.0)
 			}
 		},
 	}
-- 
2.43.0


From f7da1be2c4d36dda3d4aaa9cfebd16f1f3b7bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:25 +0000
Subject: [PATCH 17/58] fix: TwoPhaseCorrFunc.Evaluate does not overwrite the
 concentration

---
 pfc/twoPhaseCorrFunc.go | 148 ++++++++++++++++++++--------------------
 1 file changed, 74 insertions(+), 74 deletions(-)

diff --git a/pfc/twoPhaseCorrFunc.go b/pfc/twoPhaseCorrFunc.go
index 8a90840..4bceac7 100644
--- a/pfc/twoPhaseCorrFunc.go
+++ b/pfc/twoPhaseCorrFunc.go
@@ -1,75 +1,75 @@
-package pfc
-
-import (
-	"math"
-	"github.com/davidkleiven/gopf/pfutil"
-)
-
-// 3*x^2 - 2x^3
-func Indicator(x float64) float64 {
-	if x < 0.0 {
-		return 0.0
-	} else if x > 1{
-		return 1.0
-	} 
-	return 3 * x * x - 2 * x * x * x
-}
-
-func IndicatorDeriv(x float64) float64 {
-	if x < 0.0 || x > 1.0 {
-		return 0.0
-	}
-	return 6 * x - 6 * x * x
-}
-
-type TwoPhaseCorrFunc struct {
-	CorrFunc []ReciprocalSpacePairCorrelation
-}
-
-func Dot(x []float64, y []float64) float64 {
-	res := 0.0
-	for i := range x {
-		res += x[i]*y[i]
-	}
-	return res
-}
-
-func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	if len(tpcf.CorrFunc) != 2 {
-		panic("Length of CorrFunc must be 2\n")
-	}
-
-	// Calcualte real space correlation functions
-	corrFunc1FT := make([]complex128, len(cFT))
-	corrFunc2FT := make([]complex128, len(cFT))
-	twoPi := 2.0*math.Pi
-	for i := range corrFunc1FT {
-		freq := fft.Freq(i)
-		k := twoPi*math.Sqrt(Dot(freq, freq))
-		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
-		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
-	}
-
-	corrFunc1 := fft.IFFT(corrFunc1FT)
-	corrFunc2 := fft.IFFT(corrFunc2FT)
-	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
-	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
-
-	// Calculate real space concentration
-	conc := fft.IFFT(cFT)
-	pfutil.DivRealScalar(conc, float64(len(conc)))
-	
-	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
-	C_eff := corrFunc1FT // Overwrite corrFunc1FT
-	for i := range C_eff {
-		x := real(conc[i])
-		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
-	}
-	return C_eff
-}
-
-func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
-	Ceff := tpcf.Evaluate(cFT, fft)
-	fft.FFT(Ceff)
-	return Ceff
+package pfc
+
+import (
+	"math"
+	"github.com/davidkleiven/gopf/pfutil"
+)
+
+// 3*x^2 - 2x^3
+func Indicator(x float64) float64 {
+	if x < 0.0 {
+		return 0.0
+	} else if x > 1{
+		return 1.0
+	} 
+	return 3 * x * x - 2 * x * x * x
+}
+
+func IndicatorDeriv(x float64) float64 {
+	if x < 0.0 || x > 1.0 {
+		return 0.0
+	}
+	return 6 * x - 6 * x * x
+}
+
+type TwoPhaseCorrFunc struct {
+	CorrFunc []ReciprocalSpacePairCorrelation
+}
+
+func Dot(x []float64, y []float64) float64 {
+	res := 0.0
+	for i := range x {
+		res += x[i]*y[i]
+	}
+	return res
+}
+
+func (tpcf *TwoPhaseCorrFunc) Evaluate(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	if len(tpcf.CorrFunc) != 2 {
+		panic("Length of CorrFunc must be 2\n")
+	}
+
+	// Calcualte real space correlation functions
+	corrFunc1FT := make([]complex128, len(cFT))
+	corrFunc2FT := make([]complex128, len(cFT))
+	twoPi := 2.0*math.Pi
+	for i := range corrFunc1FT {
+		freq := fft.Freq(i)
+		k := twoPi*math.Sqrt(Dot(freq, freq))
+		corrFunc1FT[i] = complex(tpcf.CorrFunc[0].Eval(k), 0.0)
+		corrFunc2FT[i] = complex(tpcf.CorrFunc[1].Eval(k), 0.0)
+	}
+
+	corrFunc1 := fft.IFFT(corrFunc1FT)
+	corrFunc2 := fft.IFFT(corrFunc2FT)
+	pfutil.DivRealScalar(corrFunc1, float64(len(corrFunc1)))
+	pfutil.DivRealScalar(corrFunc2, float64(len(corrFunc2)))
+
+	// Calculate real space concentration
+	conc := fft.IFFT(append([]complex128{}, cFT...))
+	pfutil.DivRealScalar(conc, float64(len(conc)))
+	
+	// C_eff = Indicator(conc)*CorrFunc1 + (1-Indicator(conc))*CorrFunc2
+	C_eff := corrFunc1FT // Overwrite corrFunc1FT
+	for i := range C_eff {
+		x := real(conc[i])
+		C_eff[i] = complex(Indicator(x), 0.0) * corrFunc1[i] + complex(1-Indicator(x), 0.0)*corrFunc2[i]
+	}
+	return C_eff
+}
+
+func (tpcf *TwoPhaseCorrFunc) EvaluateFT(cFT []complex128, fft *pfutil.FFTWWrapper) []complex128 {
+	Ceff := tpcf.Evaluate(cFT, fft)
+	fft.FFT(Ceff)
+	return Ceff
 }
\ No newline at end of file
-- 
2.43.0


From 74314068f9bfe63cb2fcc9c198261c564b7e46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 18/58] fix: the tensor of a cubic material is symmetric in the
 last two indices

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From 847423a940a4df03fa57723dfd2cb51d2316d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 19/58] fix: the perturbed force is the divergence of the
 stress

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From 576756e287af2193b00dde8081167d0129cf52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 20/58] fix: x and y were exchanged in CalculateStrainEnergy

The frequencies of sfft.FFT3 have the column first, while the ellipsoid and
the tensors have x along the rows
---
 elasticity/strainEnergyCLI.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elasticity/strainEnergyCLI.go b/elasticity/strainEnergyCLI.go
index 25cbbcf..eb8f3b8 100644
--- a/elasticity/strainEnergyCLI.go
+++ b/elasticity/strainEnergyCLI.go
@@ -3,6 +3,7 @@ package elasticity
 import (
 	"math"
 
+	"github.com/davidkleiven/gopf/pfutil"
 	"github.com/davidkleiven/gosfft/sfft"
 	"gonum.org/v1/gonum/mat"
 )
@@ -52,7 +53,7 @@ func CalculateStrainEnergy(params StrainEnergyInput) float64 {
 		}
 	}
 
-	ft := sfft.NewFFT3(params.DomainSize, params.DomainSize, params.DomainSize)
+	ft := pfutil.NewFFTW([]int{params.DomainSize, params.DomainSize, params.DomainSize})
 	ft.FFT(indicator.Data)
 	force := make([][]complex128, params.DomainSize*params.DomainSize*params.DomainSize)
 	for k := range force {
-- 
2.43.0


From d3f9b815b14ef97076d39c237eb34a2fdf6a8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:03 +0000
Subject: [PATCH 21/58] fix: the elastic energy acts from the first step

---
 pf/homoLinElast.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index 02c90ae..ae064d6 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -45,6 +45,11 @@ type HomogeneousModulusLinElast struct {
 // Construct returns the function needed to build the term on the
 // right hand side
 func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
+	// The first step is taken before OnStepFinished is called for the first time
+	if _, ok := bricks[h.FieldName]; ok {
+		h.OnStepFinished(0.0, bricks)
+	}
+
 	return func(freq Frequency, t float64, field []complex128) {
 		for i := range field {
 			field[i] = complex(0.0, 0.0)
-- 
2.43.0


From d2f90801abef58e4e325e9227afba8c5548a38ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 22/58] fix: strains are real in HomogeneousModulusLinElast

---
 pf/homoLinElast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pf/homoLinElast.go b/pf/homoLinElast.go
index ae064d6..b0f314d 100644
--- a/pf/homoLinElast.go
+++ b/pf/homoLinElast.go
@@ -75,6 +75,9 @@ func (h *HomogeneousModulusLinElast) Construct(bricks map[string]Brick) Term {
 			for j := i; j < h.Dim; j++ {
 				strains := elasticity.Strain(disp, h.Freq, i, j)
 				h.FT.IFFT(strains) // Obtain real-space strains
+				for k := range strains {
+					strains[k] = complex(real(strains[k]), 0.0)
+				}
 				pfutil.DivRealScalar(strains, float64(len(strains)))
 				pfutil.ElemwiseMul(strains, work)
 				h.FT.FFT(strains)
-- 
2.43.0


From 2969bc5b5152e89d98a5b3e5a28ef93786707dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:27 +0000
Subject: [PATCH 23/58] fix: the dimer dynamics couples all fields

The second field was driven by the force on the first one, and the
reflection was applied to each field on its own
---
 pf/sdd.go | 52 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..c37c6b6 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -195,40 +195,45 @@ func (sdd *SDD) Step(m *Model) {
 	sdd.ShiftFieldsAlongDimer(m.Fields, -0.5*l)
 	sdd.fft(m)
 
-	work := make([]complex128, m.NumNodes())
-
-	// Array that is used to track changes in the produced field
-	origField := make([]complex128, m.NumNodes())
 	sdd.Monitor.MaxForce = 0.0
 	sdd.Monitor.ForcePowerSpectrum = 0.0
 	cDt := complex(sdd.Dt, 0.0)
 
+	// The orientation vector spans all fields, thus the reflection is applied to all of them at once
+	force := make([]complex128, len(ftOrientation))
+	denums := make([]complex128, len(ftOrientation))
+	newFields := make([]complex128, len(ftOrientation))
+
+	// Fill the force array with the weighted average of the forces in the end points
+	w1 := complex(sdd.Alpha, 0.0)
+	w2 := complex(1.0-sdd.Alpha, 0.0)
+	for j := range force {
+		force[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+	}
+	sdd.householder(force, ftOrientation, 2.0, m.NumNodes())
+
 	for i := range m.Fields {
-		copy(origField, m.Fields[i].Data)
-		// Fill the work array with the weighted average of the field values
-		w1 := complex(sdd.Alpha, 0.0)
-		w2 := complex(1.0-sdd.Alpha, 0.0)
-		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
-		}
-		d := m.Fields[i].Data
-		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-		sdd.householder(work, activeFtOrient, 2.0, m.NumNodes())
+		copy(newFields[i*m.NumNodes():], m.Fields[i].Data)
+		copy(denums[i*m.NumNodes():], m.GetDenum(i, sdd.ft.Freq, sdd.GetTime()))
+	}
 
-		// Apply euler scheme
-		for j := range d {
-			d[j] = (d[j] + cDt*work[j])
-		}
-		work = m.GetDenum(i, sdd.ft.Freq, sdd.GetTime())
-		dsm := sdd.householderDenum(work, activeFtOrient, 2.0)
-		dsm.dot(d)
+	// Apply euler scheme
+	for j := range newFields {
+		newFields[j] += cDt * force[j]
+	}
+	dsm := sdd.householderDenum(denums, ftOrientation, 2.0)
+	dsm.dot(newFields)
 
+	for i := range m.Fields {
+		d := m.Fields[i].Data
 		for j := range d {
-			diff := cmplx.Abs((d[j] - origField[j]) / cDt)
+			newValue := newFields[i*m.NumNodes()+j]
+			diff := cmplx.Abs((newValue - d[j]) / cDt)
 			sdd.Monitor.ForcePowerSpectrum += diff * diff / float64(m.NumNodes())
 			if diff > sdd.Monitor.MaxForce {
 				sdd.Monitor.MaxForce = diff
 			}
+			d[j] = newValue
 		}
 	}
 
@@ -334,9 +339,10 @@ func (sdd *SDD) householderDenum(data []complex128, ftOrientation []complex128,
 	}
 
 	cSigma := complex(sigma, 0.0)
+	numNodes := pfutil.ProdInt(sdd.ft.Dimensions)
 	for i := range data {
 		dsm.invDiagonal[i] = 1.0 / (1.0 - cDt*data[i])
-		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(len(data)), 0.0)
+		dsm.v[i] = cSigma * data[i] * cDt * cmplx.Conj(ftOrientation[i]) / complex(float64(numNodes), 0.0)
 	}
 	dsm.u = ftOrientation
 	return dsm
-- 
2.43.0


From c6d004ff220453579371c1e776589371a2ea2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 24/58] fix: the order of the conductivities in 3D is the
 documented one

---
 pf/chargeTransport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..ae5162d 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -150,9 +150,9 @@ func (ct *ChargeTransport) OnStepFinished(t float64, b map[string]Brick) {}
 
 func voigtIndex3D() [][]int {
 	return [][]int{
-		{0, 5, 4},
-		{5, 1, 3},
-		{4, 3, 2},
+		{0, 5, 3},
+		{5, 1, 4},
+		{3, 4, 2},
 	}
 }
 
-- 
2.43.0


From 63b710371628ea0400f634ce17d9217837108f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 25/58] fix: NumEquivalent3D when the first and the last index
 are of equal size

---
 pfc/miller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..e7d90d8 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -60,7 +60,7 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.K) == abs(miller.H) {
 		numEqual++
 	}
-	if abs(miller.L) == abs(miller.K) {
+	if abs(miller.L) == abs(miller.K) || abs(miller.L) == abs(miller.H) {
 		numEqual++
 	}
 
-- 
2.43.0


From 5eb147fea4c77028bd37b23d4057cea05c7fa4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 26/58] fix: the change of the reciprocal cell involves the
 transposed change of the cell

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From 66dd8e8513bb479f7dd77fb9410f37a57e160969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 27/58] fix: the volume of a left handed cell is positive

---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 2ddb2ec..30fbb85 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -17,7 +17,7 @@ type Cell struct {
 // Volume returns the volume of the cell. For 2D lattices this would
 // be the surface area
 func (c *Cell) Volume() float64 {
-	return mat.Det(c.CellVec)
+	return math.Abs(mat.Det(c.CellVec))
 }
 
 // ReciprocalCell is a type used to represent the reciprocal lattice. In underlying CellVec
-- 
2.43.0


From 56581d658db347b915c4326fafcd80f00dbc413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:16 +0000
Subject: [PATCH 28/58] fix: density of planes with negative or larger Miller
 indices

---
 pfc/lattice.go | 47 ++++++++++-------------------------------------
 1 file changed, 10 insertions(+), 37 deletions(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 30fbb85..acbe35f 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -2,10 +2,8 @@ package pfc
 
 import (
 	"math"
-	"sort"
 
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/spatial/r3"
 )
 
 // Cell is a type used to represent a unit cell. In the underlying CellVec
@@ -163,43 +161,18 @@ func Triangular2D(a float64) Cell {
 // CubicUnitCellDensity returns the density of a plane when the underlying
 // Bravais lattice is cubic.
 func CubicUnitCellDensity(miller Miller) float64 {
-	millerArray := make([]int, 3)
-	millerArray[0] = miller.At(0)
-	millerArray[1] = miller.At(1)
-	millerArray[2] = miller.At(2)
-	sort.Ints(millerArray)
-
-	if millerArray[0] == 0 && millerArray[1] == 0 {
+	h, k, l := miller.H, miller.K, miller.L
+	divisor := gcd(gcd(h, k), l)
+	if divisor == 0 {
 		return 1.0
 	}
-	v1 := r3.Vec{}
-	v2 := r3.Vec{}
-	v3 := r3.Vec{}
-
-	if millerArray[0] == 1 {
-		v1.X = 1.0
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v1) // v3 --> v3 - v1
-		v2 = v2.Sub(v1) // v2 --> v2 - v1
-	} else if millerArray[0] == 0 {
-		v2.Y = 1.0 / float64(millerArray[1])
-		v3.Z = 1.0 / float64(millerArray[2])
-		v3 = v3.Sub(v2)
-		v2.Y = 0.0
-		v2.X = 1.0
-	} else {
-		panic("The smallest Miller index has to be 0 or 1")
-	}
+	return float64(divisor) / math.Sqrt(float64(h*h+k*k+l*l))
+}
 
-	// TODO: v0.7 of gonum does not include Cross, but it is included in development version
-	// Use the line below after next release of gonum
-	// cross := v1.Cross(v2)
-	cross := r3.Vec{
-		X: v3.Y*v2.Z - v3.Z*v2.Y,
-		Y: v3.Z*v2.X - v3.X*v2.Z,
-		Z: v3.X*v2.Y - v3.Y*v2.X,
+// gcd returns the greatest common divisor
+func gcd(a, b int) int {
+	for b != 0 {
+		a, b = b, a%b
 	}
-	area := math.Sqrt(cross.X*cross.X + cross.Y*cross.Y + cross.Z*cross.Z)
-	return 1.0 / area
+	return abs(a)
 }
-- 
2.43.0


From 9104b7d505820615a0cced65106087d9466e80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:33 +0000
Subject: [PATCH 29/58] fix: MatchElasticProp with a single mode

---
 pfc/mode_solver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfc/mode_solver.go b/pfc/mode_solver.go
index 3010487..468c9fd 100644
--- a/pfc/mode_solver.go
+++ b/pfc/mode_solver.go
@@ -435,7 +435,11 @@ func (ms *ModeSolver) MatchElasticProp(properties map[string]float64) ElasticPro
 		initX[i] = 1.0
 	}
 	initX[0] = 1.0
-	initX[1] = 0.01
+	if len(initX) > 1 {
+		initX[1] = 0.01
+	} else {
+		initX[0] = 0.01
+	}
 	optRes, _ := optimize.Minimize(problem, initX, nil, nil)
 
 	fitRes := ElasticPropResult{
-- 
2.43.0


From 27958ac5f688e532ab1b042023e265f60d0b6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:11 +0000
Subject: [PATCH 30/58] fix: positions in 2D grids start at z=0 when a shape is
 drawn

---
 pfutil/shapes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..4ee1622 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -107,6 +107,7 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	floatPos := make([]float64, 3)
 	for i := range grid.Data {
 		pos := grid.Pos(i)
+		floatPos[2] = 0.0
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
-- 
2.43.0


From cbce314b393d9879e40d149b5480ca169e6329cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:52 +0000
Subject: [PATCH 31/58] fix: ids in the positions table are the node numbers
 that positionId refers to

---
 pf/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 160a9d9..e2937dc 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -180,13 +180,13 @@ func (fdb *FieldDB) populatePositionsTable() {
 	for i := 0; i < numNodes; i++ {
 		pos := pfutil.Pos(fdb.DomainSize, i)
 		copy(pos3, pos)
-		statement, err := tx.Prepare("INSERT INTO positions (X, Y, Z) VALUES (?, ?, ?)")
+		statement, err := tx.Prepare("INSERT INTO positions (id, X, Y, Z) VALUES (?, ?, ?, ?)")
 
 		if err != nil {
 			tx.Rollback()
 			return
 		}
-		_, err = statement.Exec(pos3[0], pos3[1], pos3[2])
+		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-- 
2.43.0


From be25254e61b2727e02fe4baf44f4edf25c4d5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 32/58] fix: the position of a domain with a single node is
 stored once

---
 pf/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/database.go b/pf/database.go
index e2937dc..10d1863 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -165,7 +165,7 @@ func (fdb *FieldDB) positionTableIsPopulated() bool {
 	for result.Next() {
 		result.Scan(&numRows)
 	}
-	return numRows > 1
+	return numRows > 0
 }
 
 // populatePositionTables inserts values into the position table
-- 
2.43.0


From 8668eb0f60c7c791c26b3ea054614ae0aca4f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 33/58] fix: 2D fields are not stored in the database of a 3D
 domain

---
 pf/database.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 10d1863..7f2db91 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -351,7 +351,11 @@ func (fdb *FieldDB) domainSizeOk() bool {
 
 	columns := []string{"X", "Y", "Z"}
 
-	for i := 0; i < len(fdb.DomainSize); i++ {
+	for i := range columns {
+		size := 1
+		if i < len(fdb.DomainSize) {
+			size = fdb.DomainSize[i]
+		}
 		sqlStr := fmt.Sprintf("SELECT MAX(%s) FROM positions", columns[i])
 		rows, err := fdb.DB.Query(sqlStr)
 		if err != nil {
@@ -363,7 +367,7 @@ func (fdb *FieldDB) domainSizeOk() bool {
 		for rows.Next() {
 			rows.Scan(&maxval)
 		}
-		if maxval != fdb.DomainSize[i]-1 {
+		if maxval != size-1 {
 			return false
 		}
 	}
-- 
2.43.0


From 8e6c3641c0b9a326ed85747b36a1dee6b85cf1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:53 +0000
Subject: [PATCH 34/58] fix: NaN values are loaded from the database as NaN

---
 pf/database.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 7f2db91..1396a79 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"log"
+	"math"
 	"math/rand"
 	"strings"
 	"time"
@@ -405,11 +406,15 @@ func (fdb *FieldDB) Load(simID int, timestep int) []Field {
 
 	rows, err = fdb.DB.Query("SELECT name, value, positionId FROM fields "+
 		"WHERE simID=? AND timestep=?", simID, timestep)
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		fields[name].Data[positionID] = complex(value, 0.0)
+		if !value.Valid {
+			// NaN is stored as NULL
+			value.Float64 = math.NaN()
+		}
+		fields[name].Data[positionID] = complex(value.Float64, 0.0)
 	}
 
 	fieldArray := make([]Field, len(fieldNames))
-- 
2.43.0


From a4726f99de3d21a62bb5bddee4d4e46e02f21f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:30 +0000
Subject: [PATCH 35/58] fix: order of the dimensions of 3D domains in XDMF
 files

---
 pf/xdmf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pf/xdmf.go b/pf/xdmf.go
index 76fa426..fa26937 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -88,7 +88,9 @@ func CreateXDMF(fieldNames []string, prefix string, num int, domainSize []int) X
 		dimensions = fmt.Sprintf("%d %d", domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDY"
 	} else if len(domainSize) == 3 {
-		dimensions = fmt.Sprintf("%d %d %d", domainSize[0], domainSize[1], domainSize[2])
+		// The slowest varying dimension comes first. Nodes are stored with y as the fastest
+		// and z as the slowest varying index
+		dimensions = fmt.Sprintf("%d %d %d", domainSize[2], domainSize[0], domainSize[1])
 		geoType = "ORIGIN_DXDYDZ"
 	} else {
 		panic("Length of domain size to be either 2 or 3")
-- 
2.43.0


From ec9fe1e841e2d71411a242f23f5b4ada6f9f452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 36/58] fix: gopf db attr --name shows the value of text
 attributes

---
 cmd/attr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 3a21063..73ebe77 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -221,7 +221,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 
 	var txtValue string
 	for rows.Next() {
-		rows.Scan(&value, &simID)
+		rows.Scan(&txtValue, &simID)
 		fmt.Printf("Sim id %-10d %-20s = %12s\n", simID, name, txtValue)
 	}
 }
-- 
2.43.0


From 68a4a350484b0bc0c3675c3b07a800fe572ff5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 37/58] fix: NaN values in the database are listed and exported
 as NaN

---
 cmd/attr.go   | 8 ++++----
 cmd/export.go | 8 ++++----
 cmd/util.go   | 9 +++++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 73ebe77..330b8fc 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -126,14 +126,14 @@ func listAttributes(db *sql.DB, simulationID int) {
 
 	// Go through the float attributes
 	var key string
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&key, &value, &simID)
 		if _, ok := kvp[simID]; !ok {
 			kvp[simID] = make(map[string]string)
 		}
-		kvp[simID][key] = fmt.Sprintf("%f", value)
+		kvp[simID][key] = fmt.Sprintf("%f", nullAsNaN(value))
 		header[key] = true
 	}
 
@@ -206,11 +206,11 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		return
 	}
 
-	var value float64
+	var value sql.NullFloat64
 	var simID int
 	for rows.Next() {
 		rows.Scan(&value, &simID)
-		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, value)
+		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, nullAsNaN(value))
 	}
 
 	if simulationID > 0 {
diff --git a/cmd/export.go b/cmd/export.go
index 65e9dd1..43cb4bc 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -157,11 +157,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		return
 	}
 	var timestep int
-	var value float64
+	var value sql.NullFloat64
 
 	for rows.Next() {
 		rows.Scan(&key, &value, &timestep)
-		dataArray[timestep][key] = value
+		dataArray[timestep][key] = nullAsNaN(value)
 	}
 
 	out, err := os.Create(outfile)
@@ -230,11 +230,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		return
 	}
 	var name string
-	var value float64
+	var value sql.NullFloat64
 	var positionID int
 	for rows.Next() {
 		rows.Scan(&name, &value, &positionID)
-		data[positionID][name] = value
+		data[positionID][name] = nullAsNaN(value)
 	}
 
 	out, err := os.Create(outfile)
diff --git a/cmd/util.go b/cmd/util.go
index cf503fb..3499bcd 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"database/sql"
 	"fmt"
+	"math"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -41,6 +42,14 @@ func newestSimulationID(db *sql.DB) int {
 	return simID
 }
 
+// nullAsNaN returns the value of a real column. NaN is stored as NULL in the database
+func nullAsNaN(value sql.NullFloat64) float64 {
+	if !value.Valid {
+		return math.NaN()
+	}
+	return value.Float64
+}
+
 // closestWhiteSpace returns the position of the first white space
 // to the left of target
 func closestWhiteSpace(line string, target int) int {
-- 
2.43.0


From 1aa79019dbe04c852083a21d4868e309320751d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 38/58] fix: the newest of several simulations created within
 one second comes first

---
 cmd/list.go | 4 ++--
 cmd/util.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/list.go b/cmd/list.go
index 75e0061..f375bb1 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -77,7 +77,7 @@ func showSimulationIds(db *sql.DB, max int) {
 		fmt.Printf("Showing %d of %d rows\n", max, numRows)
 	}
 
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 
@@ -108,7 +108,7 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	simIds := []int{}
-	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC LIMIT "
+	sql := "SELECT simID,creationTime FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT "
 	sql += fmt.Sprintf("%d", max)
 	rows, err = db.Query(sql)
 	if err != nil {
diff --git a/cmd/util.go b/cmd/util.go
index 3499bcd..e8297d1 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -29,7 +29,7 @@ func singleLine(length int) string {
 
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
-	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC LIMIT 1")
+	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
 	if err != nil {
 		fmt.Printf("%s\n", err)
 		return 0
-- 
2.43.0


From 44ff3c15fdac4f05a275530d6ab3563003035195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 39/58] fix: simulations without a comment are not listed with
 the comment of another one

---
 cmd/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/list.go b/cmd/list.go
index f375bb1..df1451d 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -124,8 +124,8 @@ func showComments(db *sql.DB, max int) {
 	}
 
 	sql = "SELECT value from comments WHERE simID=?"
-	var comment string
 	for _, v := range simIds {
+		var comment string
 		rows, err = db.Query(sql, v)
 		if err != nil {
 			fmt.Printf("%s\n", err)
-- 
2.43.0


From cf08a67181b23d3ace7046a1b04302142d4a1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 40/58] fix: long comments are listed completely

---
 cmd/comment.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 306d6f0..1f5280c 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -98,24 +98,20 @@ func printAllComments(db *sql.DB) {
 	for rows.Next() {
 		rows.Scan(&simID, &comment)
 
-		numLines := len(comment)/CommentWidth + 1
-		var currentComment string
-		start := 0
-		for lineNum := 0; lineNum < numLines; lineNum++ {
-			idString := " "
-			if lineNum == 0 {
-				idString = fmt.Sprintf("%d", simID)
+		idString := fmt.Sprintf("%d", simID)
+		for len(comment) > CommentWidth {
+			end := closestWhiteSpace(comment, CommentWidth)
+			next := end + 1
+			if end == 0 {
+				// No white space, the word has to be split
+				end = CommentWidth
+				next = end
 			}
-
-			if start+CommentWidth > len(comment) {
-				currentComment = comment[start:]
-			} else {
-				end := closestWhiteSpace(comment, start+CommentWidth)
-				currentComment = comment[start:end]
-				start = end + 1
-			}
-			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, currentComment)
+			fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment[:end])
+			comment = comment[next:]
+			idString = " "
 		}
+		fmt.Printf("| %-*s | %-*s |\n", SimIDWidth, idString, CommentWidth, comment)
 	}
 	fmt.Printf("%s\n", singleLine(width))
 }
-- 
2.43.0


From 9271f8f0c3cfa96bf1e3a895db7c56a58d6be9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 41/58] fix: gopf db comment --new sets the comment of
 simulations without one and of the newest one

---
 cmd/comment.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cmd/comment.go b/cmd/comment.go
index 1f5280c..75fa1eb 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -52,8 +52,11 @@ is used.
 		}
 
 		if simid < 0 {
-			printAllComments(sqlDB)
-			return
+			if newMsg == "" {
+				printAllComments(sqlDB)
+				return
+			}
+			simid = newestSimulationID(sqlDB)
 		}
 
 		if newMsg != "" {
@@ -62,7 +65,19 @@ is used.
 				fmt.Printf("%s\n", err)
 				return
 			}
-			statement.Exec(newMsg, simid)
+			res, err := statement.Exec(newMsg, simid)
+			if err != nil {
+				fmt.Printf("%s\n", err)
+				return
+			}
+			if num, err := res.RowsAffected(); err == nil && num == 0 {
+				// The simulation has no comment yet
+				_, err = sqlDB.Exec("INSERT INTO comments (simID, value) VALUES (?, ?)", simid, newMsg)
+				if err != nil {
+					fmt.Printf("%s\n", err)
+					return
+				}
+			}
 			fmt.Printf("Comment of id %d was successfully updated\n", simid)
 		} else {
 			rows, err := sqlDB.Query("SELECT value FROM comments WHERE simId=?", simid)
-- 
2.43.0


From 268f71e6085521376a103961b17b3cd7c725ab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 42/58] fix: the first column of exported time series is the
 timestep

---
 cmd/export.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 43cb4bc..cd69845 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -173,11 +173,12 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	writer := csv.NewWriter(out)
 	defer writer.Flush()
 
-	writer.Write(keys)
-	record := make([]string, len(keys))
-	for _, item := range dataArray {
+	writer.Write(append([]string{"timestep"}, keys...))
+	record := make([]string, len(keys)+1)
+	for i, item := range dataArray {
+		record[0] = fmt.Sprintf("%d", i)
 		for j, k := range keys {
-			record[j] = fmt.Sprintf("%f", item[k])
+			record[j+1] = fmt.Sprintf("%f", item[k])
 		}
 		writer.Write(record)
 	}
-- 
2.43.0


From 13116d91a09e1ef85be314efe9de50ea74db8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 43/58] fix: export type fielddata, as spelled in the
 documentation

---
 cmd/export.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/export.go b/cmd/export.go
index cd69845..893fa0e 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -88,7 +88,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 		switch ftype {
 		case "timeseries", "ts":
 			exportTimeseries(db, outfile, simid)
-		case "field", "fieldData", "fd":
+		case "field", "fieldData", "fielddata", "fd":
 			if all {
 				steps := allTimeSteps(db, simid)
 				for _, step := range steps {
-- 
2.43.0


From 51e5ef9afaefa60ccd42e7d1961b5af1fb60e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 44/58] fix: contour plots show each value at its position

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From 3b1e2289295c9faffcccfac4ffafbb6bf6bc1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 45/58] fix: lineplot plots the fields given by -d

---
 cmd/lineplot.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..8ccd3e7 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,13 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
@@ -112,11 +109,11 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			data := lineData(rows, x, y, z)
 			log.Printf("Extracted %d points for field %s\n", len(data), name)
 			line, err := plotter.NewLine(data)
-			line.LineStyle.Color = plotutil.Color(i)
 			if err != nil {
 				log.Fatalf("Could not create line: %s\n", err)
 				continue
 			}
+			line.LineStyle.Color = plotutil.Color(i)
 			plt.Add(line)
 			plt.Legend.Add(name, line)
 		}
-- 
2.43.0


From b3f84ad7499d377e90462e7b95ebec7eb9a3aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 46/58] fix: the y axis of contour plots points upwards

---
 cmd/contour.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index a917f53..f554bfd 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -327,7 +327,8 @@ func fillImage(data HeatMapData, cmap palette.ColorMap) *image.RGBA64 {
 				log.Fatalf("%s\n", err)
 				return img
 			}
-			img.Set(i, j, color)
+			// The first row of the image is the upper one
+			img.Set(i, m-1-j, color)
 		}
 	}
 	return img
-- 
2.43.0


From 75f37bb1d20320f1957b0a0cdad0f5a94e9782a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:53 +0000
Subject: [PATCH 47/58] fix: gopf elast energy refuses input that cannot be
 decoded

---
 cmd/energy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/energy.go b/cmd/energy.go
index 0cb9798..431d40d 100644
--- a/cmd/energy.go
+++ b/cmd/energy.go
@@ -35,7 +35,10 @@ passed via a JSON file. See gopf elast templatate for further information.
 		}
 
 		var params elasticity.StrainEnergyInput
-		json.Unmarshal(byteValue, &params)
+		if err := json.Unmarshal(byteValue, &params); err != nil {
+			log.Fatalf("Could not read %s: %s\n", infile, err)
+			return
+		}
 		energy := elasticity.CalculateStrainEnergy(params)
 		log.Printf("Elastic energy per volume inclusion: %f\n", energy)
 	},
-- 
2.43.0


From d6f509f875ff5a9ef1305cf08b0b2057cb82e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 48/58] fix: cancellation in the implicit stepper when a mode
 decays slowly

---
 pf/implicitEuler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pf/implicitEuler.go b/pf/implicitEuler.go
index 6b011dc..93ffc39 100644
--- a/pf/implicitEuler.go
+++ b/pf/implicitEuler.go
@@ -150,13 +150,14 @@ func (ie *ImplicitEuler) defaultTol() float64 {
 
 func (ie *ImplicitEuler) nonlinearIntegral(denum complex128, rhs complex128, rhsPrev complex128) complex128 {
 	cDt := complex(ie.Dt, 0.0)
-	tol := 1e-5
+	tol := 1e-3
 	a := rhsPrev
 	b := (rhs - rhsPrev) / cDt
 	f := cmplx.Exp(denum * cDt)
 
-	if cmplx.Abs(denum) < tol {
-		return 0.5 * cDt * (rhs + rhsPrev*f)
+	if z := denum * cDt; cmplx.Abs(z) < tol {
+		// The closed form below is dominated by cancellation, use its Taylor expansion
+		return cDt * (a*(1.0+z/2.0+z*z/6.0+z*z*z/24.0) + (rhs-rhsPrev)*(0.5+z/6.0+z*z/24.0+z*z*z/120.0))
 	}
 	return a*(f-1.0)/denum + b*(f-denum*cDt-1.0)/(denum*denum)
 }
-- 
2.43.0


From a07f865a5c1aad19b26589292460021acc85a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 49/58] fix: several DivGrad terms with the same field keep
 their own function

---
 pf/gradientCalculator.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index f800b01..dcfc5f7 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -50,6 +50,9 @@ func (g *GradientCalculator) ToDerivedField(name string, N int, brick Brick) Der
 type DivGrad struct {
 	Field string
 	F     GenericFunction
+
+	// suffix separates the derived fields of several terms with the same field
+	suffix string
 }
 
 // FuncName returns the name of the generic function F
@@ -62,23 +65,38 @@ func (dg *DivGrad) GradName(comp int) string {
 	return fmt.Sprintf("GRAD_%s_%d", dg.Field, comp)
 }
 
+// fluxName returns the name of the derived field that holds F times the gradient
+func (dg *DivGrad) fluxName(comp int) string {
+	return dg.FuncName() + dg.GradName(comp) + dg.suffix
+}
+
 // PrepareModel impose nessecary changes in the model in order to use the
 // DivGrad term. N is the number of grid points in the simulation domain,
 // dim is the dimension of the simulation domain. FT is a fourier transformer
 // required for gradient evaluations
 func (dg *DivGrad) PrepareModel(N int, m *Model, FT FourierTransform) {
 	dim := len(FT.Freq(0))
+
+	// The model may contain terms with the same field, but another function F. They share
+	// the gradient, which has to be up to date when F times the gradient is calculated
+	dg.suffix = ""
+	for i := 1; m.IsBrickName(dg.fluxName(0)); i++ {
+		dg.suffix = fmt.Sprintf("_%d", i)
+	}
+
 	for d := 0; d < dim; d++ {
 		grad := GradientCalculator{
 			FT:          FT,
 			Comp:        d,
 			KeepNyquist: false,
 		}
-		dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
-		m.RegisterDerivedField(dField)
+		if !m.IsBrickName(dg.GradName(d)) {
+			dField := grad.ToDerivedField(dg.GradName(d), N, m.Bricks[dg.Field])
+			m.RegisterDerivedField(dField)
+		}
 
 		dField2 := DerivedField{
-			Name: dg.FuncName() + dg.GradName(d),
+			Name: dg.fluxName(d),
 			Data: make([]complex128, N),
 			Calc: func(data []complex128) {
 				for i := range data {
@@ -96,7 +114,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 		pfutil.Clear(field)
 		dim := len(freq(0))
 		for d := 0; d < dim; d++ {
-			brick := bricks[dg.FuncName()+dg.GradName(d)]
+			brick := bricks[dg.fluxName(d)]
 			for i := range field {
 				f := freq(i)[d]
 				if math.Abs(math.Abs(f)-0.5) < 1e-10 {
-- 
2.43.0


From 3285cfb6cea3a538948ea08656dd5a53b6ca48b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 50/58] fix: several Advection terms with the same field use
 the current gradient

---
 pf/advection.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pf/advection.go b/pf/advection.go
index b8f20cd..d3b4846 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -62,8 +62,12 @@ func (ad *Advection) PrepareModel(N int, m *Model, FT FourierTransform) {
 			FT:   FT,
 			Comp: d,
 		}
-		dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
-		m.RegisterDerivedField(dField)
+		// The gradient is shared by all advection terms of the field. It has to be calculated
+		// before the derived fields that depend on it
+		if !m.IsBrickName(ad.GradName(d)) {
+			dField := grad.ToDerivedField(ad.GradName(d), N, m.Bricks[ad.Field])
+			m.RegisterDerivedField(dField)
+		}
 	}
 
 	vDotGradField := DerivedField{
-- 
2.43.0


From 0393a573de052830aa260df427f8108d39bcb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 51/58] fix: several IdealMixtureTerms with the same field keep
 their own non-linear part

---
 pf/pairCorrelationTerm.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 462d6ef..f4c525a 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -114,6 +114,9 @@ type IdealMixtureTerm struct {
 	Field     string
 	Prefactor float64
 	Laplacian bool
+
+	// suffix separates the derived fields of several terms with the same field
+	suffix string
 }
 
 // Eval returns the derivative of the underlying ideal mixture term
@@ -137,12 +140,17 @@ func (idt *IdealMixtureTerm) ConstructLinear(bricks map[string]Brick) Term {
 }
 
 func (idt *IdealMixtureTerm) nonLinearDerivedFieldName() string {
-	return fmt.Sprintf("ideal_mixture_%s_nonlin", idt.Field)
+	return fmt.Sprintf("ideal_mixture_%s_nonlin%s", idt.Field, idt.suffix)
 }
 
 // DerivedField returns the required derived field that is nessecary in order
 // to use this model
 func (idt *IdealMixtureTerm) DerivedField(numNodes int, bricks map[string]Brick) DerivedField {
+	// The model may contain terms with the same field, but other prefactors
+	idt.suffix = ""
+	for i := 1; bricks[idt.nonLinearDerivedFieldName()] != nil; i++ {
+		idt.suffix = fmt.Sprintf("_%d", i)
+	}
 	return DerivedField{
 		Name: idt.nonLinearDerivedFieldName(),
 		Data: make([]complex128, numNodes),
-- 
2.43.0


From cf7a911032517bf55f8095725ea9c13dab73a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 52/58] fix: FieldDB does not ignore statements and commits
 that fail

---
 pf/database.go | 66 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/pf/database.go b/pf/database.go
index 1396a79..93ca9bf 100644
--- a/pf/database.go
+++ b/pf/database.go
@@ -87,13 +87,17 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare("CREATE TABLE IF NOT EXISTS positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS fields (id INTEGER PRIMARY KEY, name TEXT, " +
@@ -104,14 +108,18 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simAttributes (key TEXT, value REAL, simID INTEGER, FOREIGN KEY(simID) REFERENCES fields(simID))")
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS comments (simID INTEGER, value TEXT, " +
@@ -120,7 +128,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS simTextAttributes (key TEXT, value TEXT, " +
@@ -129,7 +139,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	statement, err = fdb.DB.Prepare(
 		"CREATE TABLE IF NOT EXISTS timeseries (key TEXT, value REAL, " +
@@ -138,7 +150,9 @@ func (fdb *FieldDB) initialize() {
 	if err != nil {
 		panic(err)
 	}
-	statement.Exec()
+	if _, err = statement.Exec(); err != nil {
+		panic(err)
+	}
 
 	if fdb.simID == 0 {
 		source := rand.NewSource(time.Now().UnixNano())
@@ -150,7 +164,9 @@ func (fdb *FieldDB) initialize() {
 		if err != nil {
 			panic(err)
 		}
-		statement.Exec(fdb.simID)
+		if _, err = statement.Exec(fdb.simID); err != nil {
+			panic(err)
+		}
 	}
 
 	fdb.initialized = true
@@ -185,16 +201,18 @@ func (fdb *FieldDB) populatePositionsTable() {
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 		_, err = statement.Exec(i, pos3[0], pos3[1], pos3[2])
 
 		if err != nil {
 			tx.Rollback()
-			return
+			panic(err)
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		panic(err)
+	}
 }
 
 // insertRealPart inserts the real part of a set of field values into the database
@@ -206,7 +224,11 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 	if len(values) != pfutil.ProdInt(fdb.DomainSize) {
 		panic("FieldDB: The passed array does not match the specified domain size")
 	}
-	tx, _ := fdb.DB.Begin()
+	tx, err := fdb.DB.Begin()
+	if err != nil {
+		log.Fatal(err)
+		return
+	}
 	for i := range values {
 		statement, err := tx.Prepare("INSERT INTO fields (name, value, positionId, timestep, simID) VALUES (?, ?, ?, ?, ?)")
 
@@ -224,7 +246,9 @@ func (fdb *FieldDB) insertRealPart(name string, timestep int, values []complex12
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SaveFields stores all the field to the database. This function satisfies the
@@ -254,7 +278,9 @@ func (fdb *FieldDB) Comment(comment string) {
 		log.Fatal(err)
 		return
 	}
-	statement.Exec(fdb.simID, comment)
+	if _, err := statement.Exec(fdb.simID, comment); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetAttr adds a set of key-value pairs associated with the current simID
@@ -283,7 +309,9 @@ func (fdb *FieldDB) SetAttr(attr map[string]float64) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // SetTextAttr sets text attributes associated with the current simulation
@@ -312,7 +340,9 @@ func (fdb *FieldDB) SetTextAttr(attr map[string]string) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // TimeSeries inserts data into the timeseries table
@@ -340,7 +370,9 @@ func (fdb *FieldDB) TimeSeries(data map[string]float64, timestep int) {
 			return
 		}
 	}
-	tx.Commit()
+	if err := tx.Commit(); err != nil {
+		log.Fatal(err)
+	}
 }
 
 // domainSizeOk returns true if the domain size stored locally matches the one
-- 
2.43.0


From bdaf2c1900923acd5a8cc517f8295acbc4e0cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 53/58] fix: files that cannot be written in full are reported

---
 pf/fileIO.go   | 14 +++++++++++---
 pf/xdmf.go     |  5 ++++-
 pfutil/grid.go | 11 +++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pf/fileIO.go b/pf/fileIO.go
index df1c779..528a711 100644
--- a/pf/fileIO.go
+++ b/pf/fileIO.go
@@ -36,8 +36,11 @@ func (u *Uint8IO) SaveFields(s *Solver, epoch int) {
 		if err != nil {
 			panic(err)
 		}
-		binary.Write(out, binary.BigEndian, uint8Rep)
+		err = binary.Write(out, binary.BigEndian, uint8Rep)
 		out.Close()
+		if err != nil {
+			panic(err)
+		}
 	}
 }
 
@@ -91,7 +94,9 @@ func SaveFloat64(fname string, data []float64) {
 		return
 	}
 	defer out.Close()
-	binary.Write(out, binary.BigEndian, data)
+	if err := binary.Write(out, binary.BigEndian, data); err != nil {
+		fmt.Printf("%s\n", err)
+	}
 }
 
 // CsvIO writes data to text csv text files
@@ -190,7 +195,6 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 	defer out.Close()
 
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(header)
 	record := make([]string, len(header))
@@ -206,4 +210,8 @@ func SaveCsv(fname string, data []CsvData, domainSize []int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		log.Fatalf("Could not write file: %s\n", err)
+	}
 }
diff --git a/pf/xdmf.go b/pf/xdmf.go
index fa26937..dcaffc9 100644
--- a/pf/xdmf.go
+++ b/pf/xdmf.go
@@ -170,6 +170,9 @@ func WriteXDMF(xdmfFile string, fields []string, prefix string, num int, domainS
 	}
 	enc := xml.NewEncoder(writer)
 	enc.Indent("", "    ")
-	enc.Encode(CreateXDMF(fields, prefix, num, domainSize))
+	err = enc.Encode(CreateXDMF(fields, prefix, num, domainSize))
 	writer.Close()
+	if err != nil {
+		panic(err)
+	}
 }
diff --git a/pfutil/grid.go b/pfutil/grid.go
index 3baacd9..17414d4 100644
--- a/pfutil/grid.go
+++ b/pfutil/grid.go
@@ -81,6 +81,7 @@ func (g Grid) SaveCsv(fname string) {
 	f, err := os.Create(fname)
 	if err != nil {
 		fmt.Printf("%s\n", err)
+		return
 	}
 	defer f.Close()
 
@@ -89,7 +90,10 @@ func (g Grid) SaveCsv(fname string) {
 	if dim == 3 {
 		header = "x,y,z,value\n"
 	}
-	f.WriteString(header)
+	if _, err := f.WriteString(header); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	for i := range g.Data {
 		pos := g.Pos(i)
 		posString := []string{}
@@ -98,7 +102,10 @@ func (g Grid) SaveCsv(fname string) {
 		}
 		text := strings.Join(posString, ",")
 		text += fmt.Sprintf(",%f\n", g.Data[i])
-		f.WriteString(text)
+		if _, err := f.WriteString(text); err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 985ced768911bfd70cc8de983e711b562c0e9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:26 +0000
Subject: [PATCH 54/58] fix: gopf db export does not announce a file it could
 not write

---
 cmd/export.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/export.go b/cmd/export.go
index 893fa0e..f249363 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -171,7 +171,6 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	writer.Write(append([]string{"timestep"}, keys...))
 	record := make([]string, len(keys)+1)
@@ -182,6 +181,11 @@ func exportTimeseries(db *sql.DB, outfile string, simid int) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Timeseries written to %s\n", outfile)
 }
 
@@ -245,7 +249,6 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 	}
 	defer out.Close()
 	writer := csv.NewWriter(out)
-	defer writer.Flush()
 
 	header := make([]string, 3+len(keys))
 	header[0] = "X"
@@ -263,6 +266,11 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		}
 		writer.Write(record)
 	}
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	fmt.Printf("Field data written to %s\n", outfile)
 }
 
-- 
2.43.0


From a97953bbfaf07de1e7620d10123522590907b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:12 +0000
Subject: [PATCH 55/58] fix: gopf db attr --simid 0 lists simulation 0 and not
 the numbers of all simulations

---
 cmd/attr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 330b8fc..9b4b3ff 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -99,12 +99,12 @@ func listUniqueAttributes(db *sql.DB) {
 	}
 }
 
-// listAttributes lists the attributes. If simulationID is greater than 0, only attributes
+// listAttributes lists the attributes. If simulationID is not negative, only attributes
 // belonging to the passed ID is printed. If it is negative, all simulation IDs are included.
 func listAttributes(db *sql.DB, simulationID int) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes WHERE simId=?", simulationID)
 	} else {
 		rows, err = db.Query("SELECT key, value, simId FROM simAttributes")
@@ -195,7 +195,7 @@ func listAttributes(db *sql.DB, simulationID int) {
 func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 	var rows *sql.Rows
 	var err error
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simAttributes WHERE key=?", name)
@@ -213,7 +213,7 @@ func listSingleAttribute(db *sql.DB, simulationID int, name string) {
 		fmt.Printf("Sim id %-10d %-20s = %6.6f\n", simID, name, nullAsNaN(value))
 	}
 
-	if simulationID > 0 {
+	if simulationID >= 0 {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=? AND simId=?", name, simulationID)
 	} else {
 		rows, err = db.Query("SELECT value, simId FROM simTextAttributes WHERE key=?", name)
-- 
2.43.0


From b11c8320d2b921fcd7a08a5904c7860273a26f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 56/58] fix: gopf db commands report a missing database instead
 of creating an empty one or crashing

---
 cmd/attr.go    |  2 +-
 cmd/comment.go |  2 +-
 cmd/export.go  | 10 +++++++++-
 cmd/info.go    |  3 +--
 cmd/list.go    |  6 +++++-
 cmd/time.go    |  8 ++++++--
 cmd/util.go    | 13 +++++++++++++
 7 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/cmd/attr.go b/cmd/attr.go
index 9b4b3ff..73ddd30 100644
--- a/cmd/attr.go
+++ b/cmd/attr.go
@@ -42,7 +42,7 @@ lists the value of concentration for the simulation with ID 346.
 			return
 		}
 
-		db, err := sql.Open("sqlite3", args[0])
+		db, err := openDatabase(args[0])
 		if err != nil {
 			fmt.Printf("%s\n", err)
 			return
diff --git a/cmd/comment.go b/cmd/comment.go
index 75fa1eb..cc5b5e5 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -33,7 +33,7 @@ is used.
 			return
 		}
 
-		sqlDB, err := sql.Open("sqlite3", args[0])
+		sqlDB, err := openDatabase(args[0])
 		if err != nil {
 			fmt.Printf("%s\n", err)
 			return
diff --git a/cmd/export.go b/cmd/export.go
index f249363..01c4d86 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -41,7 +41,7 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 			return
 		}
 
-		db, err := sql.Open("sqlite3", args[0])
+		db, err := openDatabase(args[0])
 		if err != nil {
 			fmt.Printf("%s\n", err)
 			return
@@ -195,6 +195,10 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 		log.Printf("Negative timestep provided. Exporting data for the largest timestep instead (=%d)\n", ts)
 	}
 	rows, err := db.Query("SELECT COUNT (*) FROM fields WHERE simId=? AND timestep=?", simid, ts)
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var numRows int
 	for rows.Next() {
 		rows.Scan(&numRows)
@@ -218,6 +222,10 @@ func exportFieldData(db *sql.DB, ts int, simid int, outfile string) {
 
 	positions := [][]int{}
 	rows, err = db.Query("SELECT X,Y,Z FROM positions ORDER BY id")
+	if err != nil {
+		fmt.Printf("%s\n", err)
+		return
+	}
 	var x, y, z int
 	for rows.Next() {
 		rows.Scan(&x, &y, &z)
diff --git a/cmd/info.go b/cmd/info.go
index d92fddc..32182d7 100644
--- a/cmd/info.go
+++ b/cmd/info.go
@@ -16,7 +16,6 @@ limitations under the License.
 package cmd
 
 import (
-	"database/sql"
 	"fmt"
 	"log"
 	"strings"
@@ -46,7 +45,7 @@ the name of all timeseries that are tracked.
 			return
 		}
 
-		db, err := sql.Open("sqlite3", args[0])
+		db, err := openDatabase(args[0])
 		if err != nil {
 			log.Fatalf("%s\n", err)
 			return
diff --git a/cmd/list.go b/cmd/list.go
index df1451d..0ee4eb3 100644
--- a/cmd/list.go
+++ b/cmd/list.go
@@ -44,7 +44,11 @@ such that the newest entries appear first.
 			return
 		}
 
-		sqlDB, err := sql.Open("sqlite3", args[0])
+		sqlDB, err := openDatabase(args[0])
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 
 		switch content {
 		case "simId", "simid", "id":
diff --git a/cmd/time.go b/cmd/time.go
index eb8e67a..da00b60 100644
--- a/cmd/time.go
+++ b/cmd/time.go
@@ -1,7 +1,6 @@
 package cmd
 
 import (
-	"database/sql"
 	"fmt"
 
 	"github.com/spf13/cobra"
@@ -25,9 +24,10 @@ prints the creation time of the simulation with ID 456.
 			return
 		}
 
-		db, err := sql.Open("sqlite3", args[0])
+		db, err := openDatabase(args[0])
 		if err != nil {
 			fmt.Printf("%s\n", err)
+			return
 		}
 		simid, err := cmd.Flags().GetInt("simid")
 		if err != nil {
@@ -39,6 +39,10 @@ prints the creation time of the simulation with ID 456.
 		}
 
 		rows, err := db.Query("SELECT creationTime FROM simIds WHERE simId=?", simid)
+		if err != nil {
+			fmt.Printf("%s\n", err)
+			return
+		}
 		var creationTime string
 		for rows.Next() {
 			rows.Scan(&creationTime)
diff --git a/cmd/util.go b/cmd/util.go
index e8297d1..64552e4 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -4,6 +4,8 @@ import (
 	"database/sql"
 	"fmt"
 	"math"
+	"os"
+	"strings"
 )
 
 // SimIDWidth is the width of the simulation ID field
@@ -27,6 +29,17 @@ func singleLine(length int) string {
 	return singleLine
 }
 
+// openDatabase opens an existing database. SQLite creates an empty database if the file
+// does not exist
+func openDatabase(name string) (*sql.DB, error) {
+	if !strings.HasPrefix(name, "file:") {
+		if _, err := os.Stat(strings.SplitN(name, "?", 2)[0]); err != nil {
+			return nil, fmt.Errorf("could not open database: %s", err)
+		}
+	}
+	return sql.Open("sqlite3", name)
+}
+
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
 	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
-- 
2.43.0


From d374d59b81aff1435ba1644c2068c54edc7da64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 57/58] fix: gopf db time and comment report a simulation that
 does not exist

---
 cmd/comment.go |  4 ++++
 cmd/time.go    |  4 ++++
 cmd/util.go    | 14 ++++++++++++++
 3 files changed, 22 insertions(+)

diff --git a/cmd/comment.go b/cmd/comment.go
index cc5b5e5..07d4c83 100644
--- a/cmd/comment.go
+++ b/cmd/comment.go
@@ -59,6 +59,10 @@ is used.
 			simid = newestSimulationID(sqlDB)
 		}
 
+		if !simulationExists(sqlDB, simid) {
+			return
+		}
+
 		if newMsg != "" {
 			statement, err := sqlDB.Prepare("UPDATE comments SET value=? WHERE simId=?")
 			if err != nil {
diff --git a/cmd/time.go b/cmd/time.go
index da00b60..6594bb9 100644
--- a/cmd/time.go
+++ b/cmd/time.go
@@ -38,6 +38,10 @@ prints the creation time of the simulation with ID 456.
 			simid = newestSimulationID(db)
 		}
 
+		if !simulationExists(db, simid) {
+			return
+		}
+
 		rows, err := db.Query("SELECT creationTime FROM simIds WHERE simId=?", simid)
 		if err != nil {
 			fmt.Printf("%s\n", err)
diff --git a/cmd/util.go b/cmd/util.go
index 64552e4..f3f09c3 100644
--- a/cmd/util.go
+++ b/cmd/util.go
@@ -40,6 +40,20 @@ func openDatabase(name string) (*sql.DB, error) {
 	return sql.Open("sqlite3", name)
 }
 
+// simulationExists returns true if the database contains the simulation. Otherwise, it
+// prints why it does not
+func simulationExists(db *sql.DB, simid int) bool {
+	var count int
+	if err := db.QueryRow("SELECT COUNT(*) FROM simIds WHERE simId=?", simid).Scan(&count); err != nil {
+		fmt.Printf("%s\n", err)
+		return false
+	}
+	if count == 0 {
+		fmt.Printf("No simulation with ID %d\n", simid)
+	}
+	return count > 0
+}
+
 // newestSimulationID returns the ID of the newest simulation
 func newestSimulationID(db *sql.DB) int {
 	rows, err := db.Query("SELECT simId FROM simIds ORDER BY creationTime DESC, rowid DESC LIMIT 1")
-- 
2.43.0


From b11d29eed3ea98ab211901aecd1a83108443ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:42 +0000
Subject: [PATCH 58/58] fix: gopf db export reports a simulation that does not
 exist

---
 cmd/export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/export.go b/cmd/export.go
index 01c4d86..1668bfa 100644
--- a/cmd/export.go
+++ b/cmd/export.go
@@ -69,6 +69,10 @@ and have names dataset0.csv, dataset1.csv, dataset2.csv and so on.
 			simid = newestSimulationID(db)
 		}
 
+		if !simulationExists(db, simid) {
+			return
+		}
+
 		if outfile == "" {
 			outfile = fmt.Sprintf("%s_%d.csv", ftype, simid)
 		}
-- 
2.43.0

