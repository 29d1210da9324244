// Package engine runs a property as generated-input search: a generator
// produces a JSON-serialisable case, a runner executes the real code on it and
// compares with an oracle. Failures are shrunk by rapid; the last failing case
// (rapid re-runs the minimal one at the end) is written as the replay file.
package engine

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec records what one run of a case covered.
type Rec struct {
	evals   int
	nt      int
	keys    []uint64
	classes map[string]int
	known   map[string]string
	single  bool // default accounting: the case is one evaluation
	nontriv bool
}

// Each counts one evaluation inside a batched case. key identifies the inputs.
func (r *Rec) Each(nontrivial bool, key ...interface{}) {
	r.single = false
	r.evals++
	if nontrivial {
		r.nt++
		h := fnv.New64a()
		for _, k := range key {
			fmt.Fprint(h, k, "|")
		}
		r.keys = append(r.keys, h.Sum64())
	}
}

// EachN is Each for a precomputed 64-bit key.
func (r *Rec) EachN(nontrivial bool, key uint64) {
	r.single = false
	r.evals++
	if nontrivial {
		r.nt++
		r.keys = append(r.keys, key)
	}
}

// NonTrivial marks the whole case non-trivial.
func (r *Rec) NonTrivial() { r.nontriv = true }

// Class counts an event class (reported in the evidence).
func (r *Rec) Class(names ...string) {
	for _, n := range names {
		r.classes[n]++
	}
}

// Finding handles a violation that may be a recorded known finding.
func (r *Rec) Finding(id string, err error) error {
	if knownFindings[id] {
		r.known[id] = err.Error()
		return nil
	}
	return err
}

type shard struct {
	Property  string                    `json:"property"`
	Evals     int                       `json:"evals"`
	NonTriv   int                       `json:"nontrivial"`
	Classes   map[string]int            `json:"classes"`
	Subs      map[string]map[string]int `json:"subs"`
	Rules     map[string]string         `json:"rules"`
	Samples   []json.RawMessage         `json:"samples"`
	Known     map[string]string         `json:"known"`
	Corpus    int                       `json:"corpus"`
	Truncated int                       `json:"truncated"`
	Failed    bool                      `json:"failed"`
	Done      bool                      `json:"done"`
	Exhaust   map[string]string         `json:"exhaustive"`
}

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

var (
	out           = os.Getenv("HARNESS_OUT")
	replay        = os.Getenv("HARNESS_REPLAY")
	corpusDir     = os.Getenv("HARNESS_CORPUS")
	onlySub       = os.Getenv("HARNESS_SUB")
	seed          = envInt("HARNESS_SEED", 1)
	scale         = envFloat("HARNESS_SCALE", 1)
	deadlineS     = envFloat("HARNESS_DEADLINE", 600)
	hangS         = envFloat("HARNESS_HANG", 20)
	shardIdx      = envInt("HARNESS_SHARD", 0)
	shardCnt      = envInt("HARNESS_SHARDS", 1)
	allFatal      = os.Getenv("HARNESS_FATAL") != ""
	startTime     = time.Now()
	knownFindings = map[string]bool{}
	st            = &shard{Classes: map[string]int{}, Subs: map[string]map[string]int{}, Rules: map[string]string{}, Known: map[string]string{}, Exhaust: map[string]string{}}
	hashes        = map[uint64]struct{}{}
	failedAlready bool
)

const hashCap = 600000

// Shard returns the index of this shard and the number of shards.
func Shard() (int, int) { return shardIdx, shardCnt }

// Thorough tells whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}
func envFloat(k string, d float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(k), 64); err == nil {
		return v
	}
	return d
}

func init() {
	for _, id := range strings.Split(os.Getenv("HARNESS_KNOWN"), ",") {
		if id != "" {
			knownFindings[id] = true
		}
	}
}

// Spec is one executable property.
type Spec[C any] struct {
	Sub        string                   // name of this part of the property
	Rule       string                   // how cases are made and what makes one non-trivial
	N          int                      // cases at scale 1, summed over shards
	Gen        func(t *rapid.T) C       // nil: only Enum
	Enum       func(yield func(C) bool) // optional finite enumeration (split over shards by the check itself)
	Run        func(c C, r *Rec) error  // executes and judges one case
	Fatal      bool                     // write the case before running it (the process may die)
	Exhaustive string                   // set when Enum covers a finite space completely
}

func cpu() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

var caseStart atomic.Value // float64 cpu at start of the running case; -1 when idle
var hangReport atomic.Value

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		v, _ := caseStart.Load().(float64)
		if v > 0 && cpu()-v > hangS {
			if f, ok := hangReport.Load().(func()); ok {
				f()
			}
			os.Exit(3)
		}
	}
}

var wdStarted bool

func runGuarded[C any](prop string, s *Spec[C], c C, r *Rec) (err error) {
	if !wdStarted {
		wdStarted = true
		go watchdog()
	}
	hangReport.Store(func() {
		writeFail(prop, s.Sub, fmt.Sprintf("one case used more than %.0f s of CPU time: does not terminate", hangS), c)
	})
	caseStart.Store(cpu() + 1e-9)
	defer caseStart.Store(float64(-1))
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("unexpected panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return s.Run(c, r)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var o []string
	for _, l := range ls {
		if strings.Contains(l, "uniswap-simulator") || strings.Contains(l, "/repo/") {
			o = append(o, strings.TrimSpace(l))
		}
		if len(o) > 6 {
			break
		}
	}
	return strings.Join(o, "\n")
}

func writeFail(prop, sub, msg string, c interface{}) {
	if out == "" {
		return
	}
	cb, _ := json.Marshal(c)
	b, _ := json.MarshalIndent(failure{prop, sub, msg, cb}, "", " ")
	os.WriteFile(out+".fail.json", b, 0o644)
}

func newRec() *Rec {
	return &Rec{classes: map[string]int{}, known: map[string]string{}, single: true}
}

func commit(sub string, r *Rec, c interface{}) {
	if failedAlready {
		return
	}
	m := st.Subs[sub]
	if m == nil {
		m = map[string]int{}
		st.Subs[sub] = m
	}
	sample := false
	if r.single {
		r.evals = 1
		if r.nontriv {
			r.nt = 1
			b, _ := json.Marshal(c)
			h := fnv.New64a()
			h.Write([]byte(sub))
			h.Write(b)
			r.keys = append(r.keys, h.Sum64())
			sample = m["nontrivial"] == 0 && len(b) < 6000
			if sample {
				addSample(sub, b)
			}
		}
	} else if r.nt > 0 && m["nontrivial"] == 0 {
		b, _ := json.Marshal(c)
		if len(b) < 12000 {
			addSample(sub, b)
		}
	}
	st.Evals += r.evals
	st.NonTriv += r.nt
	m["evaluations"] += r.evals
	m["nontrivial"] += r.nt
	for k, v := range r.classes {
		st.Classes[k] += v
	}
	for k, v := range r.known {
		if _, ok := st.Known[k]; !ok {
			st.Known[k] = v
		}
	}
	for _, k := range r.keys {
		if len(hashes) < hashCap {
			hashes[k] = struct{}{}
		}
	}
}

func addSample(sub string, b []byte) {
	if len(st.Samples) < 6 {
		x, _ := json.Marshal(map[string]json.RawMessage{"sub": mustJSON(sub), "case": b})
		st.Samples = append(st.Samples, x)
	}
}

func mustJSON(v interface{}) json.RawMessage { b, _ := json.Marshal(v); return b }

func one[C any](prop string, s *Spec[C], c C) error {
	r := newRec()
	if s.Fatal || allFatal {
		writeFail(prop, s.Sub, "the process died while running this case", c)
	}
	err := runGuarded(prop, s, c, r)
	if err != nil {
		failedAlready = true
		st.Failed = true
		writeFail(prop, s.Sub, err.Error(), c)
		return err
	}
	if (s.Fatal || allFatal) && !failedAlready {
		os.Remove(out + ".fail.json")
	}
	commit(s.Sub, r, c)
	return nil
}

// Check runs one sub-property.
func Check[C any](t *testing.T, prop string, s Spec[C]) {
	st.Property = prop
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			t.Fatal(err)
		}
		var f failure
		if err := json.Unmarshal(b, &f); err != nil {
			t.Fatal(err)
		}
		if f.Sub != s.Sub {
			return
		}
		var c C
		if err := json.Unmarshal(f.Case, &c); err != nil {
			t.Fatal(err)
		}
		if err := one(prop, &s, c); err != nil {
			t.Fatalf("REPLAY %s/%s: %v", prop, s.Sub, err)
		}
		return
	}
	if failedAlready || (onlySub != "" && onlySub != s.Sub) {
		return
	}
	st.Rules[s.Sub] = s.Rule
	if corpusDir != "" {
		fs, _ := filepath.Glob(filepath.Join(corpusDir, prop, "*.json"))
		sort.Strings(fs)
		for _, fn := range fs {
			b, _ := os.ReadFile(fn)
			var f failure
			if json.Unmarshal(b, &f) != nil || f.Sub != s.Sub {
				continue
			}
			var c C
			if err := json.Unmarshal(f.Case, &c); err != nil {
				t.Fatalf("corpus %s: %v", fn, err)
			}
			st.Corpus++
			if err := one(prop, &s, c); err != nil {
				t.Fatalf("%s/%s corpus %s: %v", prop, s.Sub, filepath.Base(fn), err)
			}
		}
	}
	if s.Enum != nil {
		s.Enum(func(c C) bool {
			if err := one(prop, &s, c); err != nil {
				t.Errorf("%s/%s: %v", prop, s.Sub, err)
				return false
			}
			return true
		})
		if s.Exhaustive != "" {
			st.Exhaust[s.Sub] = s.Exhaustive
		}
	}
	if failedAlready || s.Gen == nil {
		return
	}
	n := int(float64(s.N) * scale / float64(shardCnt))
	if n < 1 {
		n = 1
	}
	h := fnv.New32a()
	h.Write([]byte(prop + "/" + s.Sub))
	sd := (uint64(seed)*1000003+uint64(shardIdx)*7919+uint64(h.Sum32()))%0x7fffffff + 1
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
	t.Run(strings.ReplaceAll(s.Sub, " ", "_"), func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			c := s.Gen(rt)
			if !failedAlready && time.Since(startTime).Seconds() > deadlineS {
				st.Truncated++
				return
			}
			if err := one(prop, &s, c); err != nil {
				rt.Fatalf("%s/%s: %v", prop, s.Sub, err)
			}
		})
	})
}

// Main is to be called from TestMain.
func Main(m *testing.M) {
	flag.Parse()
	code := m.Run()
	if out != "" {
		st.Done = true
		b, _ := json.Marshal(st)
		os.WriteFile(out+".json", b, 0o644)
		hb := make([]byte, 0, 8*len(hashes))
		for k := range hashes {
			hb = binary.LittleEndian.AppendUint64(hb, k)
		}
		os.WriteFile(out+".hash", hb, 0o644)
	}
	os.Exit(code)
}

// Try runs f and returns the panic value if it panicked.
func Try(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// Discard is a recorder whose content is not reported.
func Discard() *Rec { return newRec() }
