package scn

import (
	"crypto/rand"
	mrand "math/rand/v2"
	"os"
)

func seedEntropy(seed uint64) {
	var sb [32]byte
	for i := 0; i < 8; i++ {
		sb[i] = byte(seed >> (8 * i))
	}
	sb[31] = 1
	rand.SimSetReader(mrand.NewChaCha8(sb))
}

// Exit ends the process for real (os.Exit is simulated in the command world).
func Exit(code int) {
	os.SimExit = nil
	os.SimFile = nil
	os.Exit(code)
}
