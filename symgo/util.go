package main

import (
	"crypto/sha256"
	"encoding/hex"
)

func hashKey(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:16])
}
