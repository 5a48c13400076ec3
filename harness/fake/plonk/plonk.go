// Package plonk is gnark's, with its calls recorded and failures injected.
package plonk

import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"

	"verif/harness/fake/spy"
)

type (
	Proof        = plonk.Proof
	ProvingKey   = plonk.ProvingKey
	VerifyingKey = plonk.VerifyingKey
)

var (
	NewProvingKey   = plonk.NewProvingKey
	NewVerifyingKey = plonk.NewVerifyingKey
	NewProof        = plonk.NewProof
	NewCS           = plonk.NewCS
	SRSSize         = plonk.SRSSize
)

func Setup(cs constraint.ConstraintSystem, srs, lagrange kzg.SRS) (pk ProvingKey, vk VerifyingKey, err error) {
	defer func() {
		spy.Record(spy.Call{System: "plonk", Func: "Setup", Args: []any{cs}, Out: []any{pk, vk}, Err: err})
	}()
	if spy.Inject("plonk", "Setup") {
		return nil, nil, spy.ErrInjected
	}
	return plonk.Setup(cs, srs, lagrange)
}

func Prove(cs constraint.ConstraintSystem, pk ProvingKey, w witness.Witness, opts ...backend.ProverOption) (p Proof, err error) {
	defer func() {
		spy.Record(spy.Call{System: "plonk", Func: "Prove", Args: []any{cs, pk, w}, Out: []any{p}, Err: err})
	}()
	if spy.Inject("plonk", "Prove") {
		return nil, spy.ErrInjected
	}
	if w == nil {
		// gnark would crash in a goroutine of its own
		panic("the witness is nil")
	}
	return plonk.Prove(cs, pk, w, opts...)
}

func Verify(p Proof, vk VerifyingKey, w witness.Witness, opts ...backend.VerifierOption) (err error) {
	defer func() { spy.Record(spy.Call{System: "plonk", Func: "Verify", Args: []any{p, vk, w}, Err: err}) }()
	if spy.Inject("plonk", "Verify") {
		return spy.ErrInjected
	}
	return plonk.Verify(p, vk, w, opts...)
}
