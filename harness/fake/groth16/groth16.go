// Package groth16 is gnark's, with its calls recorded and failures injected.
package groth16

import (
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"

	"verif/harness/fake/spy"
)

type (
	Proof        = groth16.Proof
	ProvingKey   = groth16.ProvingKey
	VerifyingKey = groth16.VerifyingKey
)

var (
	NewProvingKey   = groth16.NewProvingKey
	NewVerifyingKey = groth16.NewVerifyingKey
	NewProof        = groth16.NewProof
	NewCS           = groth16.NewCS
	DummySetup      = groth16.DummySetup
)

func Setup(cs constraint.ConstraintSystem) (pk ProvingKey, vk VerifyingKey, err error) {
	defer func() {
		spy.Record(spy.Call{System: "groth16", Func: "Setup", Args: []any{cs}, Out: []any{pk, vk}, Err: err})
	}()
	if spy.Inject("groth16", "Setup") {
		return nil, nil, spy.ErrInjected
	}
	return groth16.Setup(cs)
}

func Prove(cs constraint.ConstraintSystem, pk ProvingKey, w witness.Witness, opts ...backend.ProverOption) (p Proof, err error) {
	defer func() {
		spy.Record(spy.Call{System: "groth16", Func: "Prove", Args: []any{cs, pk, w}, Out: []any{p}, Err: err})
	}()
	if spy.Inject("groth16", "Prove") {
		return nil, spy.ErrInjected
	}
	if w == nil {
		// gnark would crash in a goroutine of its own
		panic("the witness is nil")
	}
	return groth16.Prove(cs, pk, w, opts...)
}

func Verify(p Proof, vk VerifyingKey, w witness.Witness, opts ...backend.VerifierOption) (err error) {
	defer func() { spy.Record(spy.Call{System: "groth16", Func: "Verify", Args: []any{p, vk, w}, Err: err}) }()
	if spy.Inject("groth16", "Verify") {
		return spy.ErrInjected
	}
	return groth16.Verify(p, vk, w, opts...)
}
