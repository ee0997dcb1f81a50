//go:build go1.25

package kern

import (
	"strconv"

	"verif.local/sim/rt"
)

func itoa(n int) string { return strconv.Itoa(n) }

func rtID() uint64 { return rt.ID() }
