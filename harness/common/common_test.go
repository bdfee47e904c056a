package PKG

// Replay side of the checks: cases drawn from VERIF_SEED are run against the
// real code and judged by the property's own meaning.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type verifRun struct {
	t        *testing.T
	prop     string
	r        *rand.Rand
	seed     int64
	evals    int
	distinct map[string]bool
	samples  []string
	deadline time.Time
	rule     string
	caseSeed int64
}

type verifFail struct{ msg string }

func verifEnvInt(n string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(n), 10, 64); err == nil {
		return v
	}
	return d
}

// verifLoop runs f on fresh cases until the time or case budget is used up. f
// returns a description of the case and whether it was non-trivial; it calls
// v.failf when the property is violated.
func verifLoop(t *testing.T, prop, rule string, maxCases int, f func(v *verifRun, r *rand.Rand) (desc string, nontrivial bool)) {
	if p := os.Getenv("VERIF_PROP"); p != "" && p != prop {
		t.Skip("other property")
	}
	v := &verifRun{t: t, prop: prop, rule: rule, seed: verifEnvInt("VERIF_SEED", 1), distinct: map[string]bool{}}
	ms := verifEnvInt("VERIF_MS", 2500)
	v.deadline = time.Now().Add(time.Duration(ms) * time.Millisecond)
	defer v.stats()
	only := verifEnvInt("VERIF_CASE", -1)
	if os.Getenv("VERIF_TIER") == "thorough" {
		maxCases *= 50
	}
	for i := 0; i < maxCases; i++ {
		if i%16 == 15 && time.Now().After(v.deadline) {
			break
		}
		v.caseSeed = v.seed*1000003 + int64(i)
		if only >= 0 {
			v.caseSeed = only
		}
		if !v.one(f) {
			return
		}
		if only >= 0 {
			return
		}
	}
}

func (v *verifRun) one(f func(v *verifRun, r *rand.Rand) (string, bool)) (ok bool) {
	desc := ""
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprintf("panic: %v", e)
			if vf, is := e.(verifFail); is {
				msg = vf.msg
			}
			if desc == "" {
				desc = verifDesc
			}
			v.report(desc, msg)
			ok = false
		}
	}()
	verifDesc = ""
	desc, nt := f(v, rand.New(rand.NewSource(v.caseSeed)))
	v.evals++
	if nt {
		if len(v.samples) < 3 {
			v.samples = append(v.samples, desc)
		}
		v.distinct[desc] = true
	}
	return true
}

// verifDesc describes the case being run, for failures inside it.
var verifDesc string

func (v *verifRun) failf(f string, a ...interface{}) {
	panic(verifFail{fmt.Sprintf(f, a...)})
}

func (v *verifRun) report(desc, msg string) {
	out := map[string]interface{}{
		"property": v.prop, "case_seed": v.caseSeed, "case": desc, "violation": msg,
		"rerun": fmt.Sprintf("VERIF_CASE=%d bash /verif/replay.sh %s", v.caseSeed, v.prop),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if p := os.Getenv("VERIF_FAIL"); p != "" {
		_ = os.WriteFile(p, b, 0o644)
	}
	v.t.Errorf("%s violated: %s\ncase: %s", v.prop, msg, desc)
}

func (v *verifRun) stats() {
	p := os.Getenv("VERIF_STATS")
	if p == "" {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{
		"evaluations": v.evals, "distinct_nontrivial": len(v.distinct), "rule": v.rule, "samples": v.samples, "test": v.t.Name(),
	})
	fh, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		fh.Write(append(b, '\n'))
		fh.Close()
	}
}
