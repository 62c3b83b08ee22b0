// Package other has a target type with the same name as one of package props.
package other

import (
	"context"

	"github.com/bobg/fab"
)

type c04Cust struct{ X string }

func (*c04Cust) Run(context.Context, *fab.Controller) error { return nil }
func (*c04Cust) Desc() string                               { return "cust" }

// New gives a target that encodes like one of package props.
func New(x string) fab.Target { return &c04Cust{x} }
