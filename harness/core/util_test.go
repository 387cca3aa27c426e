package core

import (
	"pgregory.net/rapid"
	"verifharness/eqn"
)

// eqnSmall draws a well behaved system
func eqnSmall(rt *rapid.T) *eqn.System {
	return eqn.Draw(rt, eqn.Opt{MaxFields: 2, MaxTerms: 3, MaxN: 20, MaxLap: 1, Lo: -1, Hi: 1, Coef: 1, Funcs: true,
		Users: true, Sources: true, Constants: true, ShuffleEqs: true, Plain: true, MaxPow: 3})
}
