// Package vh contains the common machinery of the conformance harness:
// deterministic case families, guarded execution of the code under test and
// recording of traces in a form TLC can read.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rec is one line of a trace.
type Rec map[string]any

// Family is a deterministic, indexed set of cases.
type Family struct {
	Name  string
	Quick int // number of cases in the quick tier
	Thor  int // number of cases in the thorough tier
	Run   func(c *Case)

	// MaxSec is the watchdog limit for one case (default 30).
	MaxSec int

	// Serial requests that the family is run on a single worker.
	Serial bool
}

// Prop is the harness for one property.
type Prop struct {
	HeapLimit uint64 // stop the process when the heap grows beyond this
	ID        string
	Families  func(env *Env) []Family
	Workers   int // 0 = number of CPUs
}

// Env describes the run.
type Env struct {
	Seed  uint64
	Tier  string
	Cases string // directory with cases generated by TLC
	Dir   string // scratch directory
}

// TLCCases reads the cases TLC has written under the given name.
func (e *Env) TLCCases(name string) []json.RawMessage {
	if e.Cases == "" {
		return nil
	}
	fd, err := os.Open(filepath.Join(e.Cases, name))
	if err != nil {
		return nil
	}
	defer fd.Close()
	var res []json.RawMessage
	sc := bufio.NewScanner(fd)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := sc.Bytes()
		if len(line) == 0 {
			continue
		}
		res = append(res, append(json.RawMessage(nil), line...))
	}
	// TLC's workers write in arbitrary order
	sort.Slice(res, func(i, j int) bool { return string(res[i]) < string(res[j]) })
	return res
}

// Case is the execution environment of one case.
type Case struct {
	ID   string
	Idx  int
	Rng  *rand.Rand
	Env  *Env
	out  []Rec
	keys map[string]bool

	alive func()
}

// Emit records one self-contained trace line.
func (c *Case) Emit(r Rec) {
	if _, ok := r["id"]; !ok {
		r["id"] = c.ID
	}
	c.out = append(c.out, r)
}

// Mark counts a feature of the case for the coverage report.
func (c *Case) Mark(format string, args ...any) {
	c.keys[fmt.Sprintf(format, args...)] = true
}

// Alive restarts the watchdog, for cases which consist of many short steps.
func (c *Case) Alive() {
	if c.alive != nil {
		c.alive()
	}
}

// Guard runs f and returns a description of the panic, or "".
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if os.Getenv("VSTACK") != "" {
				println(st)
			}
			msg = fmt.Sprintf("panic: %v @ %s", r, firstFrame(st))
			if len(msg) > 300 {
				msg = msg[:300]
			}
		}
	}()
	f()
	return ""
}

// firstFrame finds the innermost frame of the code under test.
func firstFrame(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "seehuhn.de/go/") && i+1 < len(lines) {
			s := strings.TrimSpace(lines[i+1])
			if k := strings.Index(s, " "); k > 0 {
				s = s[:k]
			}
			return filepath.Base(filepath.Dir(s)) + "/" + filepath.Base(s)
		}
	}
	return "?"
}

type stats struct {
	Cases    int            `json:"cases"`
	Records  int            `json:"records"`
	Families map[string]int `json:"families"`
	Marks    map[string]int `json:"marks"`
	Samples  []Rec          `json:"samples"`
}

// Main is the entry point of the harness.
func Main(props []Prop) {
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "")
	cases := fs.String("cases", "", "")
	only := fs.String("only", "", "run only this case")
	famSel := fs.String("family", "", "only families with this prefix")
	shards := fs.Int("shards", 8, "")
	maxRec := fs.Float64("scale", 1, "scale the number of cases")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh ID flags")
		os.Exit(4)
	}
	id := os.Args[1]
	fs.Parse(os.Args[2:])

	var p *Prop
	for i := range props {
		if props[i].ID == id {
			p = &props[i]
		}
	}
	if p == nil || *out == "" {
		fmt.Fprintln(os.Stderr, "unknown property or no output dir")
		os.Exit(4)
	}
	os.MkdirAll(*out, 0o755)
	env := &Env{Seed: *seed, Tier: *tier, Cases: *cases, Dir: *out}

	type job struct {
		f   *Family
		idx int
	}
	var par, ser []job
	fams := p.Families(env)
	for i := range fams {
		f := &fams[i]
		n := f.Quick
		if *tier == "thorough" {
			n = f.Thor
		}
		if *famSel != "" && !strings.HasPrefix(f.Name, *famSel) {
			continue
		}
		if *maxRec != 1 && n > 10 {
			n = int(float64(n)**maxRec) + 1
		}
		for j := 0; j < n; j++ {
			if *only != "" && f.Name+"/"+strconv.Itoa(j) != *only {
				continue
			}
			if f.Serial {
				ser = append(ser, job{f, j})
			} else {
				par = append(par, job{f, j})
			}
		}
	}
	if *only != "" && len(par)+len(ser) == 0 {
		fmt.Fprintln(os.Stderr, "no such case")
		os.Exit(4)
	}

	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	st := &stats{Families: map[string]int{}, Marks: map[string]int{}}
	var mu sync.Mutex
	files := make([]*os.File, *shards)
	bufs := make([]*bufio.Writer, *shards)
	locks := make([]sync.Mutex, *shards)
	for i := range files {
		fd, err := os.Create(filepath.Join(*out, fmt.Sprintf("shard-%02d.ndjson", i)))
		if err != nil {
			panic(err)
		}
		files[i] = fd
		bufs[i] = bufio.NewWriterSize(fd, 1<<18)
	}

	type slot struct {
		start atomic.Int64
		limit atomic.Int64
		id    atomic.Pointer[string]
		fd    *os.File
	}
	var slots []*slot
	runJob := func(s *slot, j job) {
		cid := j.f.Name + "/" + strconv.Itoa(j.idx)
		h := fnv.New64a()
		fmt.Fprintf(h, "%s|%s", p.ID, cid)
		c := &Case{
			ID: cid, Idx: j.idx, Env: env, keys: map[string]bool{},
			Rng: rand.New(rand.NewPCG(*seed, h.Sum64())),
		}
		lim := j.f.MaxSec
		if lim == 0 {
			lim = 30
		}
		s.id.Store(&cid)
		s.limit.Store(int64(lim))
		s.start.Store(time.Now().UnixNano())
		// remember what is running, in case the process dies
		s.fd.WriteAt([]byte(fmt.Sprintf("%-120s\n", cid)), 0)
		c.alive = func() { s.start.Store(time.Now().UnixNano()) }
		if msg := Guard(func() { j.f.Run(c) }); msg != "" {
			// A panic which no narrower guard has caught.
			c.out = nil
			c.Emit(Rec{"t": "panic", "msg": msg})
		}
		s.start.Store(0)
		for _, r := range c.out {
			if _, ok := r["t"]; !ok {
				r["t"] = "rec"
			}
		}
		k := j.idx % *shards
		var enc []byte
		for _, r := range c.out {
			b, err := json.Marshal(r)
			if err != nil {
				fmt.Fprintln(os.Stderr, "marshal:", err, cid)
				os.Exit(4)
			}
			enc = append(enc, b...)
			enc = append(enc, '\n')
		}
		locks[k].Lock()
		bufs[k].Write(enc)
		locks[k].Unlock()
		mu.Lock()
		st.Cases++
		st.Records += len(c.out)
		st.Families[j.f.Name]++
		for m := range c.keys {
			st.Marks[m]++
		}
		if len(c.out) > 0 && len(enc) < 3000 && len(st.Samples) < 40 && st.Families[j.f.Name] <= 2 {
			st.Samples = append(st.Samples, c.out[0])
		}
		mu.Unlock()
	}
	runAll := func(jobs []job, nw int) {
		if len(jobs) == 0 {
			return
		}
		var wg sync.WaitGroup
		var next atomic.Int64
		for w := 0; w < nw; w++ {
			fd, _ := os.Create(filepath.Join(*out, fmt.Sprintf("current-%d-%d", len(slots), w)))
			s := &slot{fd: fd}
			slots = append(slots, s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(next.Add(1)) - 1
					if i >= len(jobs) {
						s.fd.WriteAt([]byte(fmt.Sprintf("%-120s\n", "done")), 0)
						return
					}
					runJob(s, jobs[i])
				}
			}()
		}
		stop := make(chan bool)
		mine := slots
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(200 * time.Millisecond):
				}
				for _, s := range mine {
					t := s.start.Load()
					if t != 0 && time.Since(time.Unix(0, t)) > time.Duration(s.limit.Load())*time.Second {
						os.WriteFile(filepath.Join(*out, "hang"), []byte(*s.id.Load()), 0o644)
						fmt.Fprintln(os.Stderr, "watchdog: case does not terminate:", *s.id.Load())
						os.Exit(3)
					}
				}
			}
		}()
		wg.Wait()
		close(stop)
	}
	if p.HeapLimit > 0 {
		// stop before the machine runs out of memory
		go func() {
			m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			for {
				time.Sleep(50 * time.Millisecond)
				metrics.Read(m)
				if m[0].Value.Uint64() > p.HeapLimit {
					fmt.Fprintln(os.Stderr, "fatal error: memory use out of proportion")
					os.Exit(5)
				}
			}
		}()
	}
	runAll(par, nw)
	runAll(ser, 1)

	for i := range files {
		bufs[i].Flush()
		files[i].Close()
	}
	b, _ := json.Marshal(st)
	os.WriteFile(filepath.Join(*out, "stats.json"), b, 0o644)
}

// Ints converts bytes to a JSON array of integers.
func Ints[T ~uint8 | ~uint16 | ~int16 | ~int32 | ~int | ~uint32 | ~int64](b []T) []int {
	res := make([]int, len(b))
	for i, x := range b {
		res[i] = int(x)
	}
	return res
}
