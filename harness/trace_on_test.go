//go:build veriftrace

package harness

import bin "github.com/gagliardetto/binary"

func init() { enableTracing = bin.VerifEnableTracing }
