package main

import "github.com/g-rath/osv-detector/internal/zzsym"

// Natively, the binary replays one recorded case when VERIF_CASE is set.
func init() { zzsym.NativeMain() }
