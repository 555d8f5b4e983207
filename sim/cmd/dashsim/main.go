// Command dashsim runs the simulated worlds: check (parent), worker, shrink and
// replay.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"dashsim/dst"
	"dashsim/simrt"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: dashsim check|worker|shrink|replay ...")
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	if cmd != "check" && cmd != "shrink" {
		go watchdog()
	}
	switch cmd {
	case "check":
		check()
	case "worker":
		worker()
	case "shrink":
		shrink()
	case "replay":
		replay()
	case "record":
		record()
	case "one":
		one()
	default:
		fatal("unknown command " + cmd)
	}
}

// watchdog ends the process the way the Go runtime does when all goroutines are
// asleep (which it does not notice in every build), and when one run burns a minute
// of processor time, which only code without yield points can.
func watchdog() {
	cpu := func() int64 {
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		return ru.Utime.Nano() + ru.Stime.Nano()
	}
	last, idle := cpu(), 0
	run, began := simrt.RunSeq(), last
	for {
		time.Sleep(time.Second)
		c := cpu()
		n := simrt.RunSeq()
		if n != run {
			run, began = n, c
		}
		if n > 0 && c-last < 8_000_000 {
			idle++
		} else {
			idle = 0
		}
		last = c
		if idle >= 12 {
			syscall.Write(2, []byte("fatal error: all goroutines are asleep\n"))
			syscall.Exit(2)
		}
		if c-began > 60_000_000_000 {
			syscall.Write(2, []byte("fatal error: run does not end\n"))
			syscall.Exit(2)
		}
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "dashsim:", s)
	os.Exit(2)
}

// ---- one run ----

type runResult struct {
	V       *dst.Violation
	Harness string
	R       *dst.Run
	LogHash uint64
	IL      uint64
	Races   int
}

func finding(known []knownFinding, prop string, v *dst.Violation) bool {
	for _, k := range known {
		if k.prop == prop && k.class == v.Class && k.key == v.Key {
			return true
		}
	}
	return false
}

func execute(s *dst.Scenario, trace bool) (res runResult) {
	r := dst.NewRun(trace)
	res.R = r
	races := simrt.RaceErrors()
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch x := x.(type) {
			case *dst.Violation:
				res.V = x
			case *dst.HarnessError:
				res.Harness = x.Error()
			case simrt.StepBudgetError:
				res.V = &dst.Violation{Class: "nontermination", Key: "run", Msg: x.Error()}
			case simrt.DeadlockError:
				res.V = &dst.Violation{Class: "deadlock", Key: "run", Msg: x.Error()}
			default:
				st := dst.Stack()
				if dst.LibraryFrame(st) {
					res.V = &dst.Violation{Class: "panic", Key: "run", Msg: fmt.Sprintf("panic: %v\n%s", x, st)}
				} else {
					// never on the unchanged tree: what the code gave is beyond what any
					// oracle expects (a missing value, an impossible index)
					res.V = &dst.Violation{Class: "unexpected", Key: "panic", Msg: fmt.Sprintf("what was read or written is not as expected, panic: %v\n%s", x, st)}
				}
			}
		}()
		simrt.Restart()
		simrt.SetBudget(1 << 40)
		s.Run(r)
	}()
	res.Races = simrt.RaceErrors() - races
	if res.Races > 0 && res.V == nil && res.Harness == "" {
		res.V = &dst.Violation{Class: "datarace", Key: "race", Msg: fmt.Sprintf("%d data race(s) reported by the race detector", res.Races)}
	}
	r.Join()
	res.LogHash = r.HashV()
	res.IL = simrt.InterleavingHash()
	return res
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func runSeed(seed int64, prop string, idx int) uint64 {
	h := splitmix(uint64(seed))
	for _, c := range prop {
		h = splitmix(h ^ uint64(c))
	}
	return splitmix(h ^ uint64(idx))
}

// ---- known findings ----

type knownFinding struct{ prop, class, key, text string }

// loadKnown reads lines "finding: property=P class=C key=K <text>"; lines that
// start with "fixed:" are history and suppress nothing.
func loadKnown(path string) []knownFinding {
	var ks []knownFinding
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err.Error())
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 5 {
			fatal("bad known-findings line: " + l)
		}
		get := func(s, k string) string {
			if !strings.HasPrefix(s, k+"=") {
				fatal("bad known-findings line: " + l)
			}
			return s[len(k)+1:]
		}
		ks = append(ks, knownFinding{get(f[1], "property"), get(f[2], "class"), get(f[3], "key"), strings.Join(f[4:], " ")})
	}
	return ks
}

// ---- worker ----

type workerOut struct {
	Runs       int64
	Trivial    int64
	Faults     map[string]int64
	Probes     map[string]int64
	SimNanos   int64
	Steps      int64
	Switches   int64
	PoolHits   int64
	PoolMisses int64
	PoolPurges int64
	Known      map[string]int64
	Viol       *violOut
	Harness    string
	LogSum     uint64
	Samples    []string
	TimedOut   bool
	Complete   bool
}

type violOut struct {
	Index int
	Seed  uint64
	Class string
	Key   string
	Msg   string
}

func worker() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 0, "")
	stride := flag.Int("stride", 1, "")
	out := flag.String("out", "", "")
	deadline := flag.Int("deadline", 60, "seconds")
	knownFile := flag.String("known", "", "")
	fixed := flag.Bool("fixed", false, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	s := dst.Scenarios[*prop]
	if s == nil {
		fatal("unknown property " + *prop)
	}
	known := loadKnown(*knownFile)
	pf, err := os.Create(*out + ".progress")
	if err != nil {
		fatal(err.Error())
	}
	hf, err := os.Create(*out + ".hashes")
	if err != nil {
		fatal(err.Error())
	}
	hw := bufio.NewWriter(hf)
	defer dst.CleanScratch()
	w := workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	start := time.Now()
	var pb [8]byte
	if *fixed && s.Fixed != nil {
		fs := *s
		fs.Run = s.Fixed
		for i := 0; i < 64; i++ {
			simrt.Replay([simrt.NStreams][]uint32{{uint32(i)}})
			res := execute(&fs, false)
			if res.Harness == "fixed-done" || strings.Contains(res.Harness, "fixed-done") {
				break
			}
			if res.V != nil {
				if finding(known, *prop, res.V) {
					w.Known[res.V.Class+" "+res.V.Key]++
					continue
				}
				w.Viol = &violOut{-1 - i, 0, res.V.Class, res.V.Key, res.V.Msg}
				break
			}
			if res.Harness != "" {
				w.Harness = res.Harness
				break
			}
		}
	}
	for i := *from; i < *to && w.Viol == nil && w.Harness == ""; i += *stride {
		if time.Since(start) > time.Duration(*deadline)*time.Second {
			w.TimedOut = true
			break
		}
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		pf.WriteAt(pb[:], 0)
		sd := runSeed(*seed, *prop, i)
		simrt.Seed(sd)
		res := execute(s, false)
		w.Runs++
		for k, v := range res.R.Faults {
			w.Faults[k] += v
		}
		for k, v := range res.R.Probes {
			w.Probes[k] += v
		}
		w.SimNanos += res.R.SimNanos
		w.Steps += simrt.Steps()
		w.Switches += simrt.Switches()
		w.LogSum += splitmix(res.LogHash ^ uint64(i))
		if res.R.Trivial {
			w.Trivial++
		}
		var hb [32]byte
		binary.LittleEndian.PutUint64(hb[0:], res.R.ShapeV())
		binary.LittleEndian.PutUint64(hb[8:], res.IL)
		binary.LittleEndian.PutUint64(hb[16:], uint64(i))
		binary.LittleEndian.PutUint64(hb[24:], res.LogHash)
		if res.R.Trivial {
			hb[23] = 0x80
		}
		hw.Write(hb[:])
		if len(w.Samples) < 1 && i < 3**stride {
			simrt.Seed(sd)
			t := execute(s, true)
			l := t.R.Log()
			if len(l) > 25 {
				l = l[:25]
			}
			for k := range l {
				if len(l[k]) > 300 {
					l[k] = l[k][:300] + "..."
				}
			}
			w.Samples = append(w.Samples, fmt.Sprintf("run %d seed %#x: %s", i, sd, strings.Join(l, " | ")))
			if t.LogHash != res.LogHash && t.V == nil {
				w.Harness = fmt.Sprintf("run %d is not deterministic inside one process", i)
			}
		}
		if res.Harness != "" {
			w.Harness = fmt.Sprintf("run %d: %s", i, res.Harness)
			break
		}
		if res.V != nil {
			if finding(known, *prop, res.V) {
				w.Known[res.V.Class+" "+res.V.Key]++
				continue
			}
			w.Viol = &violOut{i, sd, res.V.Class, res.V.Key, res.V.Msg}
			break
		}
	}
	w.PoolHits, w.PoolMisses, w.PoolPurges = simrt.PoolHits, simrt.PoolMisses, simrt.PoolPurges
	w.Complete = true
	hw.Flush()
	hf.Close()
	b, _ := json.Marshal(w)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fatal(err.Error())
	}
}

// ---- replay files ----

// runRange is a sequence of seeded runs in one process, for a failure that needs
// more than the last of them.
type runRange struct {
	Seed             int64
	From, To, Stride int
}

type replayFile struct {
	Property string
	Seed     string
	Index    int
	Class    string
	Key      string
	Message  string
	Fixed    bool
	Runs     *runRange `json:",omitempty"`
	Streams  map[string][]uint32
	Original map[string]int
	History  []string
	Note     string
}

func (f *replayFile) streams() (rs [simrt.NStreams][]uint32) {
	for i, n := range simrt.StreamNames {
		rs[i] = f.Streams[n]
	}
	return
}

func (f *replayFile) setStreams(rs [simrt.NStreams][]uint32) {
	f.Streams = map[string][]uint32{}
	for i, n := range simrt.StreamNames {
		s := rs[i]
		for len(s) > 0 && s[len(s)-1] == 0 {
			s = s[:len(s)-1]
		}
		f.Streams[n] = append([]uint32{}, s...)
	}
}

func loadReplay(p string) *replayFile {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal(err.Error())
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err.Error())
	}
	return &f
}

func (f *replayFile) save(p string) {
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(p+".tmp", b, 0o644); err != nil {
		fatal(err.Error())
	}
	os.Rename(p+".tmp", p)
}

func scenarioFor(f *replayFile) *dst.Scenario {
	s := dst.Scenarios[f.Property]
	if s == nil {
		fatal("unknown property " + f.Property)
	}
	if f.Fixed {
		c := *s
		c.Run = s.Fixed
		return &c
	}
	return s
}

// replay re-executes a replay file in this process.
func replay() {
	quiet := flag.Bool("q", false, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(512 << 20)
	f := loadReplay(flag.Arg(0))
	s := scenarioFor(f)
	exit := func(c int) { dst.CleanScratch(); os.Exit(c) }
	var res runResult
	if q := f.Runs; q != nil {
		for i := q.From; i <= q.To; i += q.Stride {
			simrt.Seed(runSeed(q.Seed, f.Property, i))
			if res = execute(s, !*quiet && i == q.To); res.V != nil || res.Harness != "" {
				break
			}
		}
	} else {
		simrt.Replay(f.streams())
		res = execute(s, !*quiet)
	}
	if !*quiet {
		for _, l := range res.R.Log() {
			fmt.Println(l)
		}
	}
	if res.Harness != "" {
		fatal(res.Harness)
	}
	if res.V == nil {
		fmt.Println("replay: property held")
		exit(0)
	}
	fmt.Printf("class=%s key=%s\n%s\nloghash=%x\n", res.V.Class, res.V.Key, res.V.Msg, res.LogHash)
	if !*quiet {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, flag.Arg(0))
	}
	exit(1)
}

// one runs a single seed index with its history printed (for development).
func one() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	idx := flag.Int("i", 0, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	s := dst.Scenarios[*prop]
	simrt.Seed(runSeed(*seed, *prop, *idx))
	res := execute(s, true)
	for _, l := range res.R.Log() {
		fmt.Println(l)
	}
	fmt.Println(res.Harness, res.V, res.R.Faults, res.R.Probes)
}

// ---- shrinking ----

func sameV(v *dst.Violation, class, key string) bool {
	return v != nil && v.Class == class && v.Key == key
}

// shrink reduces the choice streams of a violation, keeping its class and key.
func shrink() {
	file := flag.String("file", "", "")
	secs := flag.Int("secs", 15, "")
	sub := flag.Bool("sub", false, "every candidate in its own process")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(512 << 20)
	f := loadReplay(*file)
	s := scenarioFor(f)
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	best := f.streams()
	tries := 0
	test := func(rs [simrt.NStreams][]uint32) bool {
		tries++
		if *sub {
			c := *f
			c.setStreams(rs)
			c.save(*file + ".cand")
			defer os.Remove(*file + ".cand")
			return replayOutcome(*file+".cand", f.Class, f.Key)
		}
		simrt.Replay(rs)
		res := execute(s, false)
		if sameV(res.V, f.Class, f.Key) {
			for i := range rs {
				best[i] = simrt.Recorded(i)
				if len(best[i]) > len(rs[i]) {
					best[i] = best[i][:len(rs[i])]
				}
			}
			return true
		}
		return false
	}
	accept := func(rs [simrt.NStreams][]uint32) bool {
		if !test(rs) {
			return false
		}
		if *sub {
			best = rs
		}
		return true
	}
	save := func() {
		f.setStreams(best)
		f.save(*file)
	}
	size := func() int {
		n := 0
		for _, b := range best {
			n += len(b)
			for _, v := range b {
				if v != 0 {
					n += 2
				}
			}
		}
		return n
	}
	over := func() bool { return time.Now().After(deadline) }
	for pass := 0; pass < 8 && !over(); pass++ {
		before := size()
		for si := range best {
			// drop whole stream
			if len(best[si]) > 0 {
				c := best
				c[si] = nil
				accept(c)
			}
			for chunk := len(best[si]) / 2; chunk >= 1 && !over(); chunk /= 2 {
				for i := 0; i+chunk <= len(best[si]) && !over(); {
					c := best
					c[si] = append(append([]uint32{}, best[si][:i]...), best[si][i+chunk:]...)
					if accept(c) {
						continue
					}
					nz := false
					for _, v := range best[si][i : i+chunk] {
						nz = nz || v != 0
					}
					if nz {
						c = best
						c[si] = append([]uint32{}, best[si]...)
						for k := i; k < i+chunk; k++ {
							c[si][k] = 0
						}
						accept(c)
					}
					i += chunk
				}
			}
			for i := 0; i < len(best[si]) && !over(); i++ {
				for _, d := range []func(uint32) uint32{func(v uint32) uint32 { return v / 2 }, func(v uint32) uint32 { return v - 1 }} {
					for i < len(best[si]) && best[si][i] > 0 && !over() {
						c := best
						c[si] = append([]uint32{}, best[si]...)
						c[si][i] = d(c[si][i])
						if !accept(c) {
							break
						}
					}
				}
			}
			save()
		}
		if size() >= before {
			break
		}
	}
	save()
	fmt.Println("candidates", tries)
}

// replayOutcome replays a file in a fresh process and reports whether it fails
// the given way.
func replayOutcome(file, class, key string) bool {
	out, code := sub(120, "replay", "-q", file)
	if class == "crash" {
		return code != 0 && code != 1 && isCrash(out) && crashKey(out) == key
	}
	return code == 1 && strings.Contains(out, "class="+class+" key="+key+"\n")
}

func isCrash(out string) bool {
	return strings.Contains(out, "fatal error:") || strings.Contains(out, "goroutine stack exceeds") || strings.Contains(out, "unexpected signal") || strings.Contains(out, "SIGSEGV")
}

func crashKey(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.Contains(l, "fatal error:") {
			return strings.ReplaceAll(strings.TrimSpace(l[strings.Index(l, "fatal error:")+12:]), " ", "-")
		}
	}
	return "signal"
}

// sub runs this binary again and returns its output and exit code (-1: killed).
func sub(secs int, args ...string) (string, int) {
	cmd := exec.Command(os.Args[0], args...)
	var ob bytes.Buffer
	lw := &limitWriter{w: &ob, n: 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	cmd.Env = childEnv()
	if err := cmd.Start(); err != nil {
		fatal(err.Error())
	}
	t := time.AfterFunc(time.Duration(secs)*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return ob.String(), 0
	}
	return ob.String(), cmd.ProcessState.ExitCode()
}

type limitWriter struct {
	mu sync.Mutex
	w  io.Writer
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	q := p
	if len(q) > l.n {
		q = q[:l.n]
	}
	l.n -= len(q)
	l.w.Write(q)
	return len(p), nil
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 history_size=2", "GOTRACEBACK=single", "GODEBUG=asyncpreemptoff=1")
}

// ---- parent ----

func check() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	verif := flag.String("verif", "/verif", "")
	work := flag.String("work", "", "scratch directory")
	instr := flag.String("instr", "", "instr.json")
	runs := flag.Int("runs", 0, "")
	workers := flag.Int("workers", 0, "")
	flag.Parse()
	begin := time.Now()
	s := dst.Scenarios[*prop]
	if s == nil {
		fatal("unknown property " + *prop)
	}
	if s.Race && !simrt.RaceEnabled {
		fatal(*prop + " needs the race build")
	}
	knownPath := filepath.Join(*verif, "known-findings.txt")
	known := loadKnown(knownPath)
	n := s.Quick
	capSecs := 240
	if *tier == "thorough" {
		n = s.Thorough
		capSecs = 660
	}
	if *runs > 0 {
		n = *runs
	}
	nw := *workers
	if nw == 0 {
		nw = 8
	}
	type wres struct {
		out  workerOut
		text string
		code int
		idx  int
		ok   bool
	}
	res := make([]wres, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			of := filepath.Join(*work, fmt.Sprintf("w%d.json", w))
			args := []string{"worker", "-prop", *prop, "-seed", strconv.FormatInt(*seed, 10), "-from", strconv.Itoa(w), "-to", strconv.Itoa(n),
				"-stride", strconv.Itoa(nw), "-out", of, "-deadline", strconv.Itoa(capSecs), "-known", knownPath}
			if w == 0 {
				args = append(args, "-fixed")
			}
			text, code := sub(capSecs+240, args...)
			r := &res[w]
			r.text, r.code = text, code
			if b, err := os.ReadFile(of + ".progress"); err == nil && len(b) == 8 {
				r.idx = int(binary.LittleEndian.Uint64(b)) - 1
			} else {
				r.idx = -1
			}
			b, err := os.ReadFile(of)
			if code == 0 && err == nil && json.Unmarshal(b, &r.out) == nil && r.out.Complete {
				r.ok = true
			}
		}()
	}
	wg.Wait()
	tot := workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}}
	var viol *violOut
	harnessErr := ""
	shapes := map[uint64]bool{}
	ils := map[uint64]bool{}
	logs := map[int]uint64{}
	for w := range res {
		r := &res[w]
		if !r.ok {
			if r.code != 0 && isCrash(r.text) && r.idx >= 0 && !strings.Contains(r.text, "dashsim: ") {
				v := &violOut{r.idx, runSeed(*seed, *prop, r.idx), "crash", crashKey(r.text), clipEnd(r.text)}
				if viol == nil || v.Index < viol.Index {
					viol = v
				}
				continue
			}
			harnessErr = fmt.Sprintf("worker %d ended with code %d at run %d: %s", w, r.code, r.idx, clipEnd(r.text))
			continue
		}
		o := &r.out
		tot.Runs += o.Runs
		tot.Trivial += o.Trivial
		tot.SimNanos += o.SimNanos
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.PoolHits += o.PoolHits
		tot.PoolMisses += o.PoolMisses
		tot.PoolPurges += o.PoolPurges
		tot.TimedOut = tot.TimedOut || o.TimedOut
		for k, v := range o.Faults {
			tot.Faults[k] += v
		}
		for k, v := range o.Probes {
			tot.Probes[k] += v
		}
		for k, v := range o.Known {
			tot.Known[k] += v
		}
		tot.Samples = append(tot.Samples, o.Samples...)
		if o.Harness != "" {
			harnessErr = o.Harness
		}
		if o.Viol != nil && (viol == nil || o.Viol.Index < viol.Index) {
			viol = o.Viol
		}
		if b, err := os.ReadFile(filepath.Join(*work, fmt.Sprintf("w%d.json.hashes", w))); err == nil {
			for ; len(b) >= 32; b = b[32:] {
				if b[23] != 0x80 {
					shapes[binary.LittleEndian.Uint64(b)] = true
				}
				ils[binary.LittleEndian.Uint64(b[8:])] = true
				b[23] = 0
				logs[int(binary.LittleEndian.Uint64(b[16:]))] = binary.LittleEndian.Uint64(b[24:])
			}
		}
	}
	searchWall := time.Since(begin).Seconds()
	for _, k := range known {
		if k.prop == *prop && tot.Known[k.class+" "+k.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		}
	}
	detChecked := 0
	if viol == nil && harnessErr == "" {
		// determinism: re-run a spread of seeds in two fresh processes, at another stride
		step := n/48 + 1
		of := filepath.Join(*work, "det.json")
		text, code := sub(300, "worker", "-prop", *prop, "-seed", strconv.FormatInt(*seed, 10), "-from", "0", "-to", strconv.Itoa(n),
			"-stride", strconv.Itoa(step), "-out", of, "-deadline", "100", "-known", knownPath)
		if code != 0 {
			harnessErr = "determinism worker: " + clipEnd(text)
		} else if b, err := os.ReadFile(of + ".hashes"); err == nil {
			for ; len(b) >= 32; b = b[32:] {
				b[23] = 0
				i := int(binary.LittleEndian.Uint64(b[16:]))
				if h, ok := logs[i]; ok {
					detChecked++
					if h != binary.LittleEndian.Uint64(b[24:]) {
						harnessErr = fmt.Sprintf("run %d has different histories in different processes", i)
					}
				}
			}
		}
	}
	if viol == nil && harnessErr != "" {
		fatal(harnessErr)
	}
	nviol := 0
	exit := 0
	if viol != nil {
		nviol = 1
		exit = report(viol, *prop, *seed, nw, *verif, *work)
	}
	wall := time.Since(begin).Seconds()
	faultKinds := map[string]int64{}
	for _, f := range s.Faults {
		faultKinds[f] = 0
	}
	for k, v := range tot.Faults {
		faultKinds[k] = v
	}
	var inst any
	if b, err := os.ReadFile(*instr); err == nil {
		json.Unmarshal(b, &inst)
	}
	cov := map[string]any{
		"evaluations":                            tot.Runs,
		"distinct_nontrivial":                    len(shapes),
		"rule":                                   s.Rule,
		"samples":                                tot.Samples,
		"faults_injected":                        faultKinds,
		"probes":                                 tot.Probes,
		"simulated_runs_per_hour":                int64(float64(tot.Runs) / searchWall * 3600),
		"seeds":                                  fmt.Sprintf("VERIF_SEED=%d expands to one 64-bit seed per run, %d runs", *seed, tot.Runs),
		"statements_of_code_under_test_executed": tot.Steps,
		"components_real":                        s.Real,
		"components_stub":                        s.Stub,
		"determinism_reruns":                     detChecked,
		"pool":                                   map[string]int64{"hits": tot.PoolHits, "misses": tot.PoolMisses, "purges": tot.PoolPurges},
		"instrumentation":                        inst,
		"time_cap_hit":                           tot.TimedOut,
		"known_findings_hit":                     tot.Known,
	}
	if tot.SimNanos > 0 {
		cov["simulated_time_s"] = float64(tot.SimNanos) / 1e9
	} else {
		cov["simulated_time_s"] = 0
	}
	if s.MeasureIL {
		cov["distinct_interleavings"] = len(ils)
		cov["task_switches"] = tot.Switches
		cov["interleaving_measure"] = "hash of the sequence of (next task, statement) at every switch"
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": nviol, "assumptions": s.Assume,
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err.Error())
	}
	if exit == 0 {
		fmt.Printf("%s: held on %d runs (%d distinct) in %.1fs\n", *prop, tot.Runs, len(shapes), wall)
		var ks []string
		for k := range tot.Probes {
			ks = append(ks, fmt.Sprintf("%s=%d", k, tot.Probes[k]))
		}
		for k := range faultKinds {
			ks = append(ks, fmt.Sprintf("fault:%s=%d", k, faultKinds[k]))
		}
		sort.Strings(ks)
		fmt.Println("  " + strings.Join(ks, " "))
	}
	os.Exit(exit)
}

func clipEnd(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// report confirms, minimises and writes out a violation.
func report(v *violOut, prop string, seed int64, stride int, verif, work string) int {
	f := &replayFile{Property: prop, Seed: fmt.Sprintf("VERIF_SEED=%d run=%d seed=%#x", seed, v.Index, v.Seed), Index: v.Index, Class: v.Class, Key: v.Key, Message: v.Msg, Original: map[string]int{}}
	if v.Index < 0 {
		f.Fixed = true
		f.Streams = map[string][]uint32{"ops": {uint32(-1 - v.Index)}}
	} else {
		f.setStreams(recordOf(v, prop, work))
	}
	for k, st := range f.Streams {
		f.Original[k] = len(st)
	}
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d.json", prop, seed, v.Index))
	f.save(path)
	if !replayOutcome(path, f.Class, f.Key) {
		// a race report is deduplicated inside one process; other outcomes must repeat
		out, code := sub(120, "replay", "-q", path)
		if code == 1 && strings.Contains(out, "class=") {
			// fails in another way when run alone: take that one
			var c, k string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "class=") {
					p := strings.SplitN(l[6:], " key=", 2)
					c, k = p[0], p[1]
					break
				}
			}
			f.Class, f.Key = c, k
			f.save(path)
		} else if q := sequence(f, path, seed, stride); q != nil {
			f.Runs = q
			f.Streams = nil
			f.Note = "needs the runs before it in the same process"
			f.save(path)
		} else {
			fatal(fmt.Sprintf("violation of run %d (%s %s: %s) did not repeat in a fresh process (code %d): %s", v.Index, v.Class, v.Key, v.Msg, code, clipEnd(out)))
		}
	}
	if !f.Fixed && f.Runs == nil {
		args := []string{"shrink", "-file", path, "-secs", "12"}
		if f.Class == "crash" || f.Class == "datarace" {
			args = append(args, "-sub")
		}
		full := *f
		sub(40, args...)
		g := loadReplay(path)
		if !replayOutcome(path, f.Class, f.Key) {
			full.Note = "minimisation did not keep the failure; unminimised"
			full.save(path)
		} else {
			f = g
		}
	}
	out, _ := sub(120, "replay", path)
	var hist []string
	for _, l := range strings.Split(out, "\n") {
		if l != "" && !strings.HasPrefix(l, "VIOLATION") {
			hist = append(hist, l)
		}
	}
	if len(hist) > 400 {
		hist = append(hist[:200:200], hist[len(hist)-200:]...)
	}
	g := loadReplay(path)
	g.History = hist
	g.save(path)
	fmt.Printf("%s: %s [%s] %s\n", prop, f.Class, f.Key, clipEnd(v.Msg))
	for i, l := range hist {
		if i > 40 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// sequence looks for the shortest run-up of earlier runs of the same worker with
// which a violation that does not happen alone happens again.
func sequence(f *replayFile, path string, seed int64, stride int) *runRange {
	for n := 1; ; n *= 4 {
		q := &runRange{seed, f.Index - n*stride, f.Index, stride}
		if q.From < 0 {
			q.From = f.Index % stride
		}
		c := *f
		c.Runs = q
		c.save(path)
		if replayOutcome(path, f.Class, f.Key) {
			return q
		}
		if q.From == f.Index%stride {
			return nil
		}
	}
}

// record re-executes a seeded run while writing every choice to disk as it is
// made, so that even a run that kills its process leaves its choices behind.
func record() {
	prop := flag.String("prop", "", "")
	rseed := flag.Uint64("rseed", 0, "")
	out := flag.String("out", "", "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(512 << 20)
	fd, err := syscall.Open(*out, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0o644)
	if err != nil {
		fatal(err.Error())
	}
	simrt.SinkFD = fd
	simrt.Seed(*rseed)
	execute(dst.Scenarios[*prop], false)
}

// recordOf returns the choice streams of a seeded run.
func recordOf(v *violOut, prop, work string) (rs [simrt.NStreams][]uint32) {
	p := filepath.Join(work, "streams.bin")
	os.Remove(p)
	out, code := sub(200, "record", "-prop", prop, "-rseed", strconv.FormatUint(v.Seed, 10), "-out", p)
	b, err := os.ReadFile(p)
	if err != nil {
		fatal(fmt.Sprintf("recording run %d failed (code %d): %s", v.Index, code, clipEnd(out)))
	}
	for ; len(b) >= 5; b = b[5:] {
		if int(b[0]) < len(rs) {
			rs[b[0]] = append(rs[b[0]], binary.LittleEndian.Uint32(b[1:]))
		}
	}
	return rs
}
