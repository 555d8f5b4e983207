// Package simrt is the simulator runtime: seeded choice streams, the task
// scheduler, and simulator-owned replacements for sync primitives, files and the
// clock. Instrumented copies of the packages under test call into it.
//
// Everything here that tasks share is deliberately free of synchronisation and
// compiled with go:norace: exactly one task runs at a time (GOMAXPROCS=1 and a
// token), and the hand-over of the token must not create happens-before edges,
// or the race detector could no longer see which accesses of the code under test
// are unordered.
package simrt

import (
	"runtime"
	"syscall"
	"time"
)

const Version = 1

// ---- choice streams ----

const (
	SOps   = iota // workload: documents, operations, arguments
	SFault        // which faults fire, where
	SSched        // which task runs, for how long
	SPool         // pooled-object reuse
	SMap          // map iteration order
	SStyle        // XML spelling / chunking
	NStreams
)

var StreamNames = [NStreams]string{"ops", "fault", "sched", "pool", "map", "style"}

// Stream is a sequence of bounded choices: drawn from a PRNG and recorded, or
// replayed (choices beyond the recording are 0, the simplest choice).
type Stream struct {
	state  uint64
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

const maxRec = 1 << 22

//go:norace
func (s *Stream) Draw(n uint32) uint32 {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % n
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		z := s.state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		v = uint32((z >> 32) * uint64(n) >> 32)
	}
	s.pos++
	if len(s.rec) == cap(s.rec) {
		if cap(s.rec) >= maxRec {
			return v
		}
		nb := make([]uint32, len(s.rec), 2*cap(s.rec)+64)
		for i := range s.rec {
			nb[i] = s.rec[i]
		}
		s.rec = nb
	}
	s.rec = s.rec[:len(s.rec)+1]
	s.rec[len(s.rec)-1] = v
	return v
}

func (s *Stream) Recorded() []uint32 { return append([]uint32(nil), s.rec...) }

var streams [NStreams]Stream

//go:norace
func Draw(stream int, n uint32) uint32 {
	v := streams[stream].Draw(n)
	if SinkFD >= 0 && n > 1 {
		sink(stream, v)
	}
	return v
}

// SinkFD, if not negative, receives every choice as it is made.
var SinkFD = -1

//go:norace
func sink(stream int, v uint32) {
	b := [5]byte{byte(stream), byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
	syscall.Write(SinkFD, b[:])
}

func Recorded(i int) []uint32 { return streams[i].Recorded() }

// Seed starts a run whose choices are drawn from seed.
func Seed(seed uint64) {
	for i := range streams {
		x := seed*0x9e3779b97f4a7c15 + uint64(i+1)*0xd1342543de82ef95
		x ^= x >> 29
		x *= 0xbf58476d1ce4e5b9
		x ^= x >> 32
		streams[i] = Stream{state: x, rec: streams[i].rec[:0]}
	}
	startRun()
}

// Replay starts a run whose choices come from recorded streams.
func Replay(rs [NStreams][]uint32) {
	for i := range streams {
		streams[i] = Stream{isRep: true, replay: rs[i], rec: streams[i].rec[:0]}
	}
	startRun()
}

// ---- run state ----

const (
	maxTasks = 16
	// DefaultBudget bounds the statements executed by the code under test in one run.
	DefaultBudget = 60_000_000
)

type StepBudgetError struct{ Steps int64 }

func (e StepBudgetError) Error() string { return "simrt: step budget exceeded: no termination" }

type DeadlockError struct{}

func (e DeadlockError) Error() string { return "simrt: deadlock: no task can make progress" }

var (
	countdown int64 // statements until slow() is entered
	quantum   int64 // value countdown was last set to
	steps     int64 // statements accounted so far in this run
	budget    int64 = DefaultBudget

	active   bool
	turn     int32
	nTasks   int32
	nLive    int32
	live     [maxTasks]bool
	panics   [maxTasks]any
	stacks   [maxTasks]string
	meanRun  uint32 // scheduling mode: 0 = switch only at Points and completion
	pointP   uint32 // 1-in-pointP chance of a switch at a Point (0 = never)
	switches int64
	ilHash   uint64
	idle     int64 // consecutive failed lock attempts
	points   int64 // callbacks of the environment so far
	seenWork int64 // steps+points at the last failed lock attempt
	dead     bool
	flags    [64]bool

	// Tasks of code the instrumenter had to leave alone (channels, goroutines of
	// its own) can park inside the Go runtime while they hold the token.
	goids    [maxTasks]uint64
	parked   [maxTasks]bool
	nParked  int32

	inflight int64
)

var runSeq int64

// RunSeq counts the runs started in this process.
//
//go:norace
func RunSeq() int64 { return runSeq }

//go:norace
func startRun() {
	runSeq++
	steps = 0
	budget = DefaultBudget
	active = false
	dead = false
	ilHash = 14695981039346656037
	switches = 0
	setCountdown(budget)
	PoolMode = 0
	FileHook = nil
	for i := range pools {
		pools[i] = nil
	}
	nPools = 0
}

//go:norace
func SetBudget(n int64) { Steps(); budget = n; setCountdown(budget - steps) }

//go:norace
func setCountdown(n int64) {
	if n < 0 {
		n = 0
	}
	if steps+n > budget {
		n = budget - steps
		if n < 0 {
			n = 0
		}
	}
	quantum = n
	countdown = n
}

// Steps returns the number of statements of the code under test executed so far.
//
//go:norace
func Steps() int64 {
	steps += quantum - countdown
	quantum = countdown
	return steps
}

//go:norace
func InterleavingHash() uint64 { return ilHash }

//go:norace
func Switches() int64 { return switches }

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y(site uint32) {
	countdown--
	if countdown < 0 {
		slow(site)
	}
}

//go:norace
func slow(site uint32) {
	if nParked > 0 {
		rejoin()
	}
	steps += quantum - countdown
	quantum, countdown = 0, 0
	if steps > budget {
		budget = steps + 1_000_000 // let deferred calls run
		setCountdown(1_000_000)
		panic(StepBudgetError{steps})
	}
	if !active {
		setCountdown(budget - steps)
		return
	}
	pick(site)
}

// pick hands the token to a drawn task and draws how long it runs.
//
//go:norace
func pick(site uint32) {
	me := turn
	nxt := me
	if nLive > 1 {
		k := int32(Draw(SSched, uint32(nLive)))
		for i := int32(1); i <= nTasks; i++ {
			c := (me + i) % nTasks
			if live[c] {
				if k == 0 {
					nxt = c
					break
				}
				k--
			}
		}
	}
	drawQuantum()
	if nxt != me {
		handover(me, nxt, site)
	}
}

//go:norace
func drawQuantum() {
	if meanRun == 0 || nLive <= 1 {
		setCountdown(budget - steps)
		return
	}
	v := Draw(SSched, 2*meanRun+1)
	if v == 0 {
		setCountdown(budget - steps)
	} else {
		setCountdown(int64(v))
	}
}

//go:norace
func handover(me, nxt int32, site uint32) {
	switches++
	ilHash = (ilHash ^ (uint64(nxt)<<32 | uint64(site))) * 1099511628211
	turn = nxt
	wait(me)
}

//go:norace
func wait(me int32) {
	spins, since, ev := 0, int64(0), int64(-1)
	for turn != me {
		runtime.Gosched()
		if spins++; spins&0xffff != 0 {
			continue
		}
		if e := points + switches<<20 + steps<<40; e != ev {
			ev, since = e, time.Now().UnixNano()
		} else if spins > 4<<16 && time.Now().UnixNano()-since > 500_000_000 && turn >= 0 && live[turn] && me == firstOther(turn) {
			// the task that holds the token is blocked inside the Go runtime (or in code
			// it started): let another one run, as a real scheduler would
			parked[turn] = true
			nParked++
			live[turn] = false
			nLive--
			turn = me
		}
	}
	if dead {
		panic(DeadlockError{})
	}
}

//go:norace
func firstOther(t int32) int32 {
	for c := int32(0); c < nTasks; c++ {
		if c != t && live[c] {
			return c
		}
	}
	return -1
}

// rejoin makes a task that was blocked inside the Go runtime wait for its turn.
//
//go:norace
func rejoin() {
	id := goid()
	for c := int32(0); c < nTasks; c++ {
		if parked[c] && goids[c] == id {
			parked[c] = false
			nParked--
			live[c] = true
			nLive++
			if nLive == 1 {
				turn = c
			}
			wait(c)
			return
		}
	}
}

//go:norace
func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

// SetFlag and WaitFlag let one task of the environment wait for another (a
// destination that is drained only after something else has happened).
//
//go:norace
func SetFlag(i int) { flags[i] = true }

//go:norace
func WaitFlag(i int) {
	for active && !flags[i] {
		block()
	}
}

// Point is an explicit scheduling point at a callback of the simulated
// environment (a Read, a Write, a user callback).
//
//go:norace
func Point(site uint32) {
	points++
	if nParked > 0 {
		rejoin()
	}
	if !active || pointP == 0 || nLive <= 1 {
		return
	}
	Steps()
	if Draw(SSched, pointP) == 1%pointP {
		pick(1<<24 | site)
	}
}

// block is called when the running task cannot proceed (lock held by another).
//
//go:norace
func block() {
	if !active {
		panic(DeadlockError{})
	}
	if nParked > 0 {
		rejoin()
	}
	Steps()
	if w := steps + points; w != seenWork {
		seenWork, idle = w, 0
	}
	idle++
	if idle > 4000 {
		dead = true
		panic(DeadlockError{})
	}
	me := turn
	for i := int32(1); i < nTasks; i++ {
		c := (me + i) % nTasks
		if live[c] {
			drawQuantum()
			handover(me, c, 1<<25)
			return
		}
	}
	if nParked > 0 { // the others are blocked inside the Go runtime
		runtime.Gosched()
		return
	}
	dead = true
	panic(DeadlockError{})
}

//go:norace
func progress() { idle = 0 }

// TaskPanic describes a panic that escaped a task.
type TaskPanic struct {
	Task  int
	Value any
	Stack string
}

// SetSchedule selects how the scheduler preempts: mean statements between
// preemptions (0: only at Points) and the 1-in-p chance at Points.
//
//go:norace
func SetSchedule(mean, p uint32) { meanRun, pointP = mean, p }

// RunTasks runs the functions as concurrently scheduled tasks until all are done
// and returns the panics that escaped them.
func RunTasks(fs []func()) []TaskPanic {
	if len(fs) > maxTasks {
		panic("simrt: too many tasks")
	}
	begin(int32(len(fs)))
	done := make(chan struct{}, len(fs))
	for i, f := range fs {
		go taskMain(int32(i), f, done)
	}
	first()
	for range fs {
		<-done // real synchronisation: results are visible to the caller
	}
	end()
	var ps []TaskPanic
	for i := range fs {
		if panics[i] != nil {
			ps = append(ps, TaskPanic{i, panics[i], stacks[i]})
		}
	}
	return ps
}

//go:norace
func begin(n int32) {
	Steps()
	nTasks, nLive = n, n
	for i := int32(0); i < n; i++ {
		live[i] = true
		panics[i] = nil
		stacks[i] = ""
		parked[i] = false
	}
	nParked = 0
	for i := range flags {
		flags[i] = false
	}
	turn = -1
	idle = 0
	dead = false
	active = true
}

//go:norace
func first() {
	turn = int32(Draw(SSched, uint32(nTasks)))
	ilHash = (ilHash ^ uint64(turn+1)) * 1099511628211
	drawQuantum()
}

//go:norace
func end() {
	active = false
	Steps()
	setCountdown(budget - steps)
}

//go:norace
func taskMain(id int32, f func(), done chan struct{}) {
	defer taskEnd(id, done)
	goids[id] = goid()
	wait(id)
	f()
}

//go:norace
func taskEnd(id int32, done chan struct{}) {
	if r := recover(); r != nil {
		panics[id] = r
		buf := make([]byte, 8192)
		stacks[id] = string(buf[:runtime.Stack(buf, false)])
	}
	if nParked > 0 {
		func() {
			defer func() { recover() }()
			rejoin()
		}()
	}
	Steps()
	live[id] = false
	nLive--
	idle = 0
	if nLive > 0 {
		k := int32(Draw(SSched, uint32(nLive)))
		for i := int32(1); i <= nTasks; i++ {
			c := (id + i) % nTasks
			if live[c] {
				if k == 0 {
					drawQuantum()
					switches++
					ilHash = (ilHash ^ (uint64(c)<<32 | 1<<26)) * 1099511628211
					turn = c
					break
				}
				k--
			}
		}
	}
	done <- struct{}{}
}

// CurTask returns the running task's number, or -1 outside RunTasks.
//
//go:norace
func CurTask() int {
	if !active {
		return -1
	}
	return int(turn)
}

// ---- process restart ----

type resetSet struct {
	name string
	fs   []func()
}

var resetSets []resetSet

func RegisterReset(name string, fs []func()) { resetSets = append(resetSets, resetSet{name, fs}) }

// Restart puts all package level state of the code under test back to that of
// a freshly started process. xml registers before mpd (import order).
func Restart() {
	for _, s := range resetSets {
		for _, f := range s.fs {
			f()
		}
	}
	for i := range pools {
		pools[i] = nil
	}
	nPools = 0
}
