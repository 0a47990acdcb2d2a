package vt

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"
)

// Tapping tells whether everything nodes emit is searched for the secrets they were given.
func Tapping() bool { return os.Getenv("VERIF_TAP") != "" }

var tap struct {
	sync.Mutex
	known map[string]bool
	needs []need
	found string
}

type need struct {
	name string
	b    []byte
}

// Secret makes a secret known by its bytes.
func Secret(name string, raw []byte) {
	different := map[byte]bool{}
	for _, b := range raw {
		different[b] = true
	}
	if len(different) < 8 || !Tapping() {
		return // could be anything else
	}
	h := hex.EncodeToString(raw)
	list := strings.Trim(fmt.Sprint(raw), "[]")
	b := base64.StdEncoding.EncodeToString(raw)
	SecretText(name, h, strings.ToUpper(h), list, strings.ReplaceAll(list, " ", ","), strings.ReplaceAll(list, " ", ", "), strings.TrimRight(b, "="),
		strings.NewReplacer("+", "-", "/", "_", "=", "").Replace(b), new(big.Int).SetBytes(raw).String(), string(raw))
	// within a longer text that is encoded as a whole, two alignments out of three differ
	for skip := 1; skip < 3; skip++ {
		e := base64.StdEncoding.EncodeToString(raw[skip:])
		SecretText(name, e[:len(e)-4])
	}
}

// SecretText makes a secret known by what it is written as.
func SecretText(name string, forms ...string) {
	if !Tapping() {
		return
	}
	tap.Lock()
	defer tap.Unlock()
	for _, f := range forms {
		for skip := 0; skip < 3 && len(f) >= 20; skip++ { // bodies of messages are carried in base64
			e := base64.StdEncoding.EncodeToString([]byte(f[skip:]))
			forms = append(forms, e[:len(e)-4])
		}
	}
	for _, f := range forms {
		if len(f) < 12 || tap.known[f] {
			continue
		}
		if tap.known == nil {
			tap.known = map[string]bool{}
		}
		tap.known[f] = true
		tap.needs = append(tap.needs, need{name, []byte(f)})
	}
}

// Look searches what a node emitted.
func Look(where string, b []byte) {
	if !Tapping() {
		return
	}
	tap.Lock()
	defer tap.Unlock()
	for _, n := range tap.needs {
		if i := bytes.Index(b, n.b); i >= 0 && tap.found == "" {
			from, to := i-200, i+len(n.b)+20
			if from < 0 {
				from = 0
			}
			if to > len(b) {
				to = len(b)
			}
			tap.found = fmt.Sprintf("%s is in %s: %q", n.name, where, b[from:to])
		}
	}
}

// Leak returns the first secret found since the last call.
func Leak() string {
	tap.Lock()
	defer tap.Unlock()
	s := tap.found
	tap.found = ""
	return s
}
