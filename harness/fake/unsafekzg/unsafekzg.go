// Package unsafekzg is gnark's, with its calls recorded and failures injected.
package unsafekzg

import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/test/unsafekzg"

	"verif/harness/fake/spy"
)

type Option = unsafekzg.Option

var (
	WithFSCache = unsafekzg.WithFSCache
)

func NewSRS(cs constraint.ConstraintSystem, opts ...Option) (srs, lagrange kzg.SRS, err error) {
	defer func() {
		spy.Record(spy.Call{System: "unsafekzg", Func: "NewSRS", Args: []any{cs}, Out: []any{srs, lagrange}, Err: err})
	}()
	if spy.Inject("unsafekzg", "NewSRS") {
		return nil, nil, spy.ErrInjected
	}
	return unsafekzg.NewSRS(cs, opts...)
}
