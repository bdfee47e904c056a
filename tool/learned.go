package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What earlier runs learned: stated invariants that do not hold at some loop of
// a function. Leaving an invariant out never makes a proof unsound; it only
// saves the time to find out again. The list of a function counts only for
// exactly the code it was learned from, and a function whose proof fails with
// it is done over without it.

type learnedFn struct {
	Hash string   `json:"hash"`
	Skip []string `json:"skip"`
}

type learnedDB map[string]map[string]*learnedFn // property, function

func loadLearned(file string) learnedDB {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	db := learnedDB{}
	if json.Unmarshal(b, &db) != nil {
		return nil
	}
	return db
}

func (db learnedDB) save(file string) error {
	b, err := json.MarshalIndent(db, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

func fnHash(fn *ssa.Function) string {
	var b bytes.Buffer
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		var t bytes.Buffer
		f.WriteTo(&t)
		for _, l := range strings.Split(t.String(), "\n") {
			if !strings.HasPrefix(l, "#") {
				fmt.Fprintln(&b, l)
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(fn)
	return fmt.Sprintf("%x", sha256.Sum256(b.Bytes()))[:16]
}

func candName(loop *LoopState, text string) string {
	// without the place in the contract file
	if i := strings.IndexByte(text, ' '); i >= 0 {
		text = text[i+1:]
	}
	return fmt.Sprintf("%s %x", loop.key, sha256.Sum256([]byte(text)))[:len(loop.key)+13]
}

// skipSet is what to leave out in the function.
func (v *Verifier) skipSet(prop, key string, fn *ssa.Function) map[string]bool {
	l := v.learned[prop][key]
	if l == nil || fn == nil || l.Hash != fnHash(fn) {
		return nil
	}
	m := map[string]bool{}
	for _, s := range l.Skip {
		m[s] = true
	}
	return m
}

func (v *Verifier) learn(prop string, sp *FuncSpec, res []*FuncResult) {
	fn := v.funcs[sp.key]
	if fn == nil {
		return
	}
	m := map[string]bool{}
	for _, r := range res {
		for _, cd := range r.dropped {
			if cd.user && !strings.HasPrefix(cd.why, "not expressible") {
				m[candName(cd.loop, cd.text)] = true
			}
		}
	}
	if v.learned == nil {
		v.learned = learnedDB{}
	}
	if v.learned[prop] == nil {
		v.learned[prop] = map[string]*learnedFn{}
	}
	delete(v.learned[prop], sp.key)
	if len(m) == 0 {
		return
	}
	l := &learnedFn{Hash: fnHash(fn)}
	for s := range m {
		l.Skip = append(l.Skip, s)
	}
	sort.Strings(l.Skip)
	v.learned[prop][sp.key] = l
}
