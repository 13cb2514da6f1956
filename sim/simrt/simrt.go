// Package simrt is the runtime of the simulator: a cooperative scheduler that
// decides, from one seed or from a recorded schedule, which task runs at every
// yield point, the simulated clock, and the iteration order of maps.
//
// Tasks are real goroutines, but exactly one of them runs at a time
// (GOMAXPROCS is 1 and every task but the one holding the turn spins in
// runtime.Gosched).  The hand-over uses plain variables in functions the race
// detector does not see, so in a -race build it adds no happens-before edges.
package simrt

import (
	"runtime"
	"time"
	"unsafe"
)

const (
	stReady = iota
	stRun
	stSleep
	stBlocked
	stStalled
	stExt
	stDone
	stKilled
)

const mainTurn = int32(-1)

// MaxTasks bounds the tasks of one run, those the library starts included.
const MaxTasks = 8192

// Task is one simulated thread of control.
type Task struct {
	ID    int32
	state int32

	steps  int64 // yields executed by this task
	next   int64 // step at which the slow path is taken
	since  int64 // step at which it last got the turn
	change int64 // pct: step of the next priority change
	limit  int64 // step at which the running operation counts as livelocked

	wakeAt   int64
	waitAddr uintptr
	waitSet  []uintptr
	prio     int64
	noPre    int32
	pre, frc []Switch // replay: this task's voluntary and forced entries, in order
	pi, fi   int
	stallWay int32
	MapState uint64

	// Ctx is the operation the task is executing.
	Ctx any
	// Hung is set when the task could not finish.
	Hung     bool
	HungWhy  string
	HungCtx  any
	FromLib  bool // started by library code
	LastSite int32
	fresh    bool // not launched yet
	fn       func()
	done     chan struct{} // orders what the task did before the end of the run
}

// Switch is one scheduling decision: task T, at its yield number Step, gave
// the turn to To.  Forced switches (the task could not go on) have F set.
type Switch struct {
	T    int32 `json:"t"`
	Step int64 `json:"s"`
	To   int32 `json:"to"`
	F    bool  `json:"f,omitempty"`
	Site int32 `json:"site,omitempty"`
}

// Config configures one run.
type Config struct {
	Seed     uint64   `json:"seed"`
	Mode     string   `json:"mode"` // geo, pct, seam, focus, none, replay
	Mean     int64    `json:"mean,omitempty"`
	SeamP    int64    `json:"seamp,omitempty"` // out of 1000
	Depth    int      `json:"depth,omitempty"`
	Span     int64    `json:"span,omitempty"`
	Focus    int      `json:"focus,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
}

// Result describes a finished run.
type Result struct {
	Switches []Switch
	Steps    int64
	NSwitch  int64
	Hash     uint64 // over (task, site) at every switch, and the map iteration orders
	MapN     int64  // choices made for map iteration orders
	Clock    int64
	Wedges   []string // tasks that could not go on while others were stalled
	Overflow bool
	ExtN     int64
}

var (
	turn    int32 = mainTurn
	cur     *Task
	tasks   [MaxTasks]*Task
	ntasks  int32
	clock   int64
	gsteps  int64
	rng     uint64
	cfg     Config
	extN    int32
	rec     []Switch
	nswitch int64
	hash    uint64
	focus   [1 << 14]bool
	minPrio int64
	wedges  []string
	extTot  int64
	active  bool
	timers  []*Timer
	daemons []*Task // of the library, alive between runs
	libAdv  int     // clock events since a task of the harness last ran
	done1   int64   // channel operations that went through
	polled  int64
	mapG    uint64
	stepLim int64 = 4_000_000
	overflw bool
	nSites  int32
)

// SetSites tells the scheduler how many sites the overlay has.
func SetSites(n int) { nSites = int32(n) }

//go:norace
func rnd() uint64 {
	rng += 0x9E3779B97F4A7C15
	z := rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func rndn(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(rnd() % uint64(n))
}

// quantum draws the number of yields until the next voluntary switch.
//
//go:norace
func quantum() int64 {
	switch cfg.Mode {
	case "geo":
		// a geometric-like draw: uniform in [1, 2*mean], with a heavy tail.
		q := 1 + rndn(2*cfg.Mean)
		if rnd()&7 == 0 {
			q *= 8
		}
		return q
	case "pct":
		return 1 << 40
	case "seam", "focus":
		return 1 + rndn(2*cfg.Mean)
	}
	return 1 << 40
}

const fairness = 50_000

//go:norace
func setNext(t *Task) {
	switch cfg.Mode {
	case "replay":
		for t.pi < len(t.pre) && t.pre[t.pi].Step <= t.steps {
			t.pi++
		}
		t.next = 1 << 60
		if t.pi < len(t.pre) {
			t.next = t.pre[t.pi].Step
		}
	case "pct":
		if t.change > t.steps {
			t.next = t.change
		} else {
			t.next = 1 << 60
		}
	default:
		t.next = t.steps + quantum()
	}
	if f := t.since + fairness; t.next > f && f > t.steps {
		t.next = f
	}
	if t.next > t.limit && t.limit > t.steps {
		t.next = t.limit
	}
}

// Y is the yield point the overlay inserts before every statement.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	if extN != 0 {
		if t = self(); t == nil {
			return
		}
		if turn != t.ID {
			rejoin(t)
		}
	}
	t.steps++
	gsteps++
	if t.steps < t.next && !focus[site&(1<<14-1)] {
		return
	}
	slowY(t, site)
}

// Seam is a yield at a call into the environment.
//
//go:norace
func Seam(kind int32) {
	t := cur
	if t == nil {
		return
	}
	if extN != 0 {
		if t = self(); t == nil {
			return
		}
		if turn != t.ID {
			rejoin(t)
		}
	}
	t.steps++
	gsteps++
	if t.noPre == 0 && cfg.SeamP > 0 && int64(rnd()%1000) < cfg.SeamP && cfg.Mode != "replay" {
		preempt(t, -kind)
		return
	}
	if t.steps >= t.next {
		slowY(t, -kind)
	}
}

//go:norace
func slowY(t *Task, site int32) {
	if t.steps >= t.limit {
		// livelock: the operation makes no progress.
		t.Hung, t.HungWhy, t.LastSite, t.HungCtx = true, "step limit", site, t.Ctx
		overflw = true
		kill(t)
	}
	if t.noPre != 0 {
		return
	}
	if t.steps < t.next { // a focused site
		if rnd()%10 < 6 {
			preempt(t, site)
		}
		return
	}
	if cfg.Mode == "replay" && t.pi < len(t.pre) && t.pre[t.pi].Step == t.steps {
		u := byID(t.pre[t.pi].To)
		t.pi++
		if u != nil && u != t && u.state == stReady {
			record(t, u, site, false)
			give(t, u)
			return
		}
		setNext(t)
		return
	}
	if t.steps-t.since >= fairness {
		fair(t, site)
		return
	}
	if cfg.Mode == "replay" || cfg.Mode == "none" || (cfg.Mode == "pct" && t.steps != t.change) {
		setNext(t)
		return
	}
	if cfg.Mode == "pct" {
		minPrio--
		t.prio = minPrio
		if cfg.Span > 0 && rndn(3) != 0 {
			t.change = t.steps + 1 + rndn(cfg.Span)
		}
		u := pickReady(t, true)
		if u != nil && u != t {
			record(t, u, site, false)
			give(t, u)
			return
		}
		setNext(t)
		return
	}
	preempt(t, site)
}

// fair lets others run after a very long quantum, and time pass if there are none.
//
//go:norace
func fair(t *Task, site int32) {
	n := (t.ID + 1) % ntasks
	for i := int32(0); i < ntasks; i++ {
		u := tasks[(n+i)%ntasks]
		if u != t && u.state == stReady {
			record(t, u, site, false)
			give(t, u)
			return
		}
	}
	if advance() {
		fair(t, site)
		return
	}
	t.since = t.steps
	setNext(t)
}

//go:norace
func preempt(t *Task, site int32) {
	n := int64(0)
	for i := int32(0); i < ntasks; i++ {
		if tasks[i] != t && tasks[i].state == stReady {
			n++
		}
	}
	if n == 0 {
		setNext(t)
		return
	}
	k := rndn(n)
	for i := int32(0); i < ntasks; i++ {
		if tasks[i] != t && tasks[i].state == stReady {
			if k == 0 {
				record(t, tasks[i], site, false)
				give(t, tasks[i])
				return
			}
			k--
		}
	}
}

//go:norace
func record(t, u *Task, site int32, forced bool) {
	nswitch++
	hash = (hash ^ uint64(uint32(t.ID)*2654435761+uint32(site)*40503+uint32(u.ID))) * 1099511628211
	if len(rec) < 2_000_000 {
		rec = append(rec, Switch{T: t.ID, Step: t.steps, To: u.ID, F: forced, Site: site})
	}
}

//go:norace
func byID(id int32) *Task {
	if id < 0 || id >= ntasks {
		return nil
	}
	return tasks[id]
}

// give hands the turn from t, which stays ready, to u.
//
//go:norace
func give(t, u *Task) {
	t.state = stReady
	run(u)
	await(t)
}

//go:norace
func run(u *Task) {
	if !u.FromLib {
		libAdv = 0
	}
	u.state = stRun
	u.since = u.steps
	setNext(u)
	cur = u
	turn = u.ID
}

// await spins until t has the turn.
//
//go:norace
func await(t *Task) {
	for {
		if t.state == stKilled { // IDs are reused by the next run
			park()
		}
		if turn == t.ID {
			return
		}
		runtime.Gosched()
	}
}

func park() { select {} }

// kill ends the running task without unwinding it.
//
//go:norace
func kill(t *Task) {
	t.state = stKilled
	leave(t)
	park()
}

// pickReady chooses the next task among the ready ones.
//
//go:norace
func pickReady(t *Task, self bool) *Task {
	if cfg.Mode == "pct" {
		var best *Task
		for i := int32(0); i < ntasks; i++ {
			u := tasks[i]
			if u.state == stReady || (self && u == t) {
				if best == nil || u.prio > best.prio {
					best = u
				}
			}
		}
		return best
	}
	n := int64(0)
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stReady {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := int64(0)
	if cfg.Mode != "replay" && cfg.Mode != "none" {
		k = rndn(n)
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stReady {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

// leave passes the turn on because t cannot go on.
//
//go:norace
func leave(t *Task) {
	for {
		if cfg.Mode == "replay" {
			// the recorded choice, when it is still possible.
			for t.fi < len(t.frc) && t.frc[t.fi].Step < t.steps {
				t.fi++
			}
			if t.fi < len(t.frc) && t.frc[t.fi].Step == t.steps {
				if u := byID(t.frc[t.fi].To); u != nil && u.state == stReady && u != t {
					record(t, u, 0, true)
					run(u)
					return
				}
			}
		}
		if u := pickReady(t, false); u != nil {
			record(t, u, 0, true)
			run(u)
			return
		}
		if !advance() {
			break
		}
	}
	cur = nil
	turn = mainTurn
}

// advance moves the clock to the next event, if there is one.
//
//go:norace
func advance() bool {
	at := int64(1) << 62
	main := false
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stSleep && tasks[i].wakeAt < at {
			at = tasks[i].wakeAt
		}
		if tasks[i].state == stSleep && !tasks[i].FromLib {
			main = true
		}
	}
	for _, m := range timers {
		if m.on && m.at < at {
			at = m.at
		}
	}
	if at == int64(1)<<62 {
		return false
	}
	if !main {
		// only timers and goroutines of the library are waiting: periodic ones
		// would go on for ever.
		if libAdv++; libAdv > 64 {
			return false
		}
	}
	if at > clock {
		clock = at
	}
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stSleep && tasks[i].wakeAt <= clock {
			tasks[i].state = stReady
		}
	}
	k := 0
	for i := 0; i < len(timers); i++ {
		m := timers[i]
		if m.on && m.at <= clock {
			m.fire()
		}
		if m.on {
			timers[k] = m
			k++
		} else {
			m.listed = false
		}
	}
	timers = timers[:k]
	return true
}

const base = int64(1_700_000_000_000_000_000)

// Now is the simulated time.
//
//go:norace
func Now() time.Time { return time.Unix(0, base+clock) }

// Nanos is the simulated time since the start of the run.
//
//go:norace
func Nanos() int64 { return clock }

// Steps is the number of yields so far.
//
//go:norace
func Steps() int64 { return gsteps }

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Jump moves the clock forward at once, without anybody running.
//
//go:norace
func Jump(d int64) {
	if active {
		clock += d
	}
}

// Sleep suspends the task in simulated time.
//
//go:norace
func Sleep(d time.Duration) {
	t := me()
	if t == nil || d <= 0 {
		return
	}
	t.steps++
	t.wakeAt = clock + int64(d)
	t.state = stSleep
	leave(t)
	await(t)
}

// Stall suspends the task until nothing else can happen any more.
//
//go:norace
func Stall(way int32) {
	t := me()
	if t == nil {
		return
	}
	t.steps++
	t.stallWay = way
	t.state = stStalled
	leave(t)
	await(t)
}

// Block suspends the task until Wake is called for addr.
//
//go:norace
func Block(addr unsafe.Pointer) {
	t := me()
	if t == nil {
		runtime.Gosched()
		return
	}
	t.steps++
	t.waitAddr = uintptr(addr)
	t.state = stBlocked
	leave(t)
	await(t)
}

// BlockAny suspends the task until Wake is called for one of the addresses, or
// one of its waiting cases is served.
//
//go:norace
func BlockAny(addrs []uintptr) {
	t := me()
	if t == nil {
		runtime.Gosched()
		return
	}
	t.steps++
	t.waitAddr, t.waitSet = 0, addrs
	t.state = stBlocked
	leave(t)
	await(t)
	t.waitSet = nil
}

// Wake makes the tasks blocked on addr ready.
//
//go:norace
func Wake(addr unsafe.Pointer) { wakeAddr(uintptr(addr)) }

//go:norace
func wakeAddr(addr uintptr) {
	done1++
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state != stBlocked {
			continue
		}
		if t.waitAddr == addr {
			t.state = stReady
			continue
		}
		for _, a := range t.waitSet {
			if a == addr {
				t.state = stReady
				break
			}
		}
	}
}

//go:norace
func me() *Task {
	t := cur
	if t != nil && extN != 0 {
		t = self()
		if t != nil && turn != t.ID {
			rejoin(t)
		}
	}
	return t
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Cur is the task that is running, or nil.
//
//go:norace
func Cur() *Task {
	if extN != 0 {
		return self()
	}
	return cur
}

// CurCtx is the operation being executed by the running task.
//
//go:norace
func CurCtx() any {
	if t := Cur(); t != nil {
		return t.Ctx
	}
	return nil
}

// SetCtx starts an operation on the running task.
//
//go:norace
func SetCtx(ctx any, mapSeed uint64) {
	if t := Cur(); t != nil {
		t.Ctx = ctx
		t.MapState = mapSeed
		t.limit = t.steps + stepLim
	}
}

// Swap puts another context in place for a while.
//
//go:norace
func Swap(ctx any, mapSeed uint64) (any, uint64) {
	if t := Cur(); t != nil {
		c, s := t.Ctx, t.MapState
		t.Ctx, t.MapState = ctx, mapSeed
		t.limit = t.steps + stepLim
		return c, s
	}
	return nil, 0
}

// NoPreempt switches voluntary switches of the running task off or on.
//
//go:norace
func NoPreempt(on bool) {
	if t := Cur(); t != nil {
		if on {
			t.noPre++
		} else {
			t.noPre--
		}
		t.limit = t.steps + stepLim
	}
}

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(unsafe.Pointer)

//go:norace
func self() *Task {
	p := getLabel()
	if p == nil {
		return nil
	}
	t := (*Task)(p)
	for i := int32(0); i < ntasks; i++ {
		if tasks[i] == t {
			return t
		}
	}
	return nil
}

// rejoin is called by a task that was blocked outside the simulator and woke up.
//
//go:norace
func rejoin(t *Task) {
	if t.state == stExt {
		extN--
	}
	if t.state != stKilled {
		t.state = stReady
	}
	await(t)
}

// Go starts a task from library code.
//
//go:norace
func Go(fn func()) {
	p := Cur()
	if p == nil && !active {
		// started while a server is set up: it runs with the next requests.
		t := &Task{ID: -100, fn: fn, state: stReady, done: make(chan struct{}), FromLib: true, limit: stepLim, fresh: true}
		t.MapState = nextMap()
		daemons = append(daemons, t)
		return
	}
	if p == nil || ntasks >= MaxTasks {
		go fn()
		return
	}
	t := newTask(fn)
	t.Ctx, t.FromLib = p.Ctx, true
	p.MapState = mix(p.MapState)
	t.MapState = p.MapState ^ 0x5bd1e995
	t.limit = stepLim
	launch(t)
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

//go:norace
func newTask(fn func()) *Task {
	t := &Task{ID: ntasks, fn: fn, state: stReady, done: make(chan struct{})}
	t.prio = int64(rnd() >> 8)
	t.limit = stepLim
	if cfg.Mode == "replay" {
		for _, s := range cfg.Switches {
			if s.T == t.ID {
				t.addSwitch(s)
			}
		}
	}
	if cfg.Mode == "pct" {
		if cfg.Span > 0 && rndn(2) == 0 {
			t.change = 1 + rndn(cfg.Span)
		}
	}
	tasks[ntasks] = t
	ntasks++
	return t
}

//go:norace
func (t *Task) addSwitch(s Switch) {
	if s.F {
		t.frc = append(t.frc, s)
	} else {
		t.pre = append(t.pre, s)
	}
}

//go:norace
func launch(t *Task) {
	go body(t)
}

func body(t *Task) {
	setLabel(unsafe.Pointer(t))
	enter(t)
	t.fn()
	close(t.done)
	exit(t)
}

//go:norace
func enter(t *Task) { await(t) }

//go:norace
func exit(t *Task) {
	if extN != 0 && turn != t.ID {
		rejoin(t)
	}
	t.steps++
	t.state = stDone
	leave(t)
}

// Spawn adds a task before Run.
//
//go:norace
func Spawn(fn func()) *Task { return newTask(fn) }

// Begin prepares a run.
//
//go:norace
func Begin(c Config, start int64, nsites int) {
	cfg = c
	cur, turn = nil, mainTurn
	mapN = 0
	ntasks, gsteps, extN, nswitch, hash, minPrio, extTot = 0, 0, 0, 0, 14695981039346656037, 0, 0
	clock = start
	rng = c.Seed
	rec = nil
	wedges = nil
	waiters = nil
	libAdv, done1, polled = 0, 0, -1
	overflw = false
	for i := range focus {
		focus[i] = false
	}
	if c.Mode == "focus" && nsites > 0 {
		n := c.Focus
		for i := 0; i < n; i++ {
			focus[rndn(int64(nsites))] = true
		}
	}
	if c.Mode == "replay" {
		cfg.Switches = append([]Switch(nil), c.Switches...)
	}
	active = true
}

// Run executes the spawned tasks to the end.
//
//go:norace
func Run() Result {
	n := ntasks
	for i := int32(0); i < n; i++ {
		launch(tasks[i])
	}
	recall()
	if cfg.Mode == "pct" {
		for i := 0; i < cfg.Depth; i++ {
			u := tasks[rndn(int64(ntasks))]
			u.change = 1 + rndn(cfg.Span)
		}
	}
	start := &Task{ID: -1}
	if cfg.Mode == "replay" {
		for _, s := range cfg.Switches {
			if s.T == -1 {
				start.addSwitch(s)
			}
		}
	}
	for rounds := 0; ; rounds++ {
		start.steps = int64(rounds)
		kick(start)
		wait()
		// nothing is ready and no timer is pending.
		if extN > 0 && settle() {
			continue
		}
		if !idle() {
			break
		}
	}
	active = false
	join()
	dismiss()
	return Result{Switches: rec, Steps: gsteps, NSwitch: nswitch, Hash: hash, Clock: clock, Wedges: wedges, Overflow: overflw, ExtN: extTot, MapN: mapN}
}

// recall brings back the goroutines the library left behind.
//
//go:norace
func recall() {
	for _, t := range daemons {
		if ntasks >= MaxTasks {
			t.state = stKilled
			continue
		}
		t.ID = ntasks
		t.steps, t.since, t.change, t.next, t.pi, t.fi = 0, 0, 0, 0, 0, 0
		t.pre, t.frc = nil, nil
		t.limit = stepLim
		t.prio = int64(rnd() >> 8)
		if cfg.Mode == "replay" {
			for _, s := range cfg.Switches {
				if s.T == t.ID {
					t.addSwitch(s)
				}
			}
		}
		tasks[ntasks] = t
		ntasks++
		if t.fresh {
			t.fresh = false
			launch(t)
		}
	}
	daemons = nil
}

// dismiss keeps the goroutines of the library that are still waiting.
//
//go:norace
func dismiss() {
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.FromLib && (t.state == stBlocked || t.state == stSleep) {
			t.ID = -100
			daemons = append(daemons, t)
		}
	}
}

func join() {
	for _, t := range finished() {
		<-t.done
	}
}

//go:norace
func finished() []*Task {
	var ts []*Task
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stDone {
			ts = append(ts, tasks[i])
		}
	}
	return ts
}

//go:norace
func kick(start *Task) {
	start.state = stDone
	leave(start)
}

// wait spins until the turn comes back, and finds tasks that block outside
// the simulator.
//
//go:norace
func wait() {
	last, same := int64(-1), 0
	var lt int32 = -2
	var since time.Time
	for turn != mainTurn {
		runtime.Gosched()
		if gsteps == last && turn == lt {
			if same++; same == 3000 {
				since = time.Now()
			} else if same > 3000 {
				// a system call of the standard library can take its time.
				if same%1000 != 0 || time.Since(since) < 700*time.Millisecond {
					continue
				}
				t := cur
				if t != nil && turn != mainTurn {
					t.state = stExt
					extN++
					extTot++
					leave(t)
				}
				same = 0
			}
		} else {
			last, lt, same = gsteps, turn, 0
		}
	}
}

// settle lets tasks that blocked outside the simulator come back.
//
//go:norace
func settle() bool {
	start := time.Now()
	for i := 0; i < 3000 || time.Since(start) < 300*time.Millisecond; i++ {
		runtime.Gosched()
		for j := int32(0); j < ntasks; j++ {
			if tasks[j].state == stReady {
				return true
			}
		}
	}
	return false
}

// idle is called when no task can go on by itself: it releases the stalled
// tasks, or declares the rest hung.
//
//go:norace
func idle() bool {
	// a channel may have become ready without the simulator's knowledge, for
	// instance that of a context.
	if polled != done1 {
		polled = done1
		again := false
		for i := int32(0); i < ntasks; i++ {
			if t := tasks[i]; t.state == stBlocked && t.waitSet != nil {
				t.state = stReady
				again = true
			}
		}
		if again {
			return true
		}
	}
	stuck, stalled := 0, 0
	for i := int32(0); i < ntasks; i++ {
		switch tasks[i].state {
		case stBlocked, stExt:
			if !tasks[i].FromLib {
				stuck++
			}
		case stStalled:
			stalled++
		}
	}
	if stalled > 0 {
		if stuck > 0 {
			for i := int32(0); i < ntasks; i++ {
				t := tasks[i]
				if (t.state == stBlocked || t.state == stExt) && !t.FromLib {
					wedges = append(wedges, "blocked")
					t.Hung, t.HungWhy, t.HungCtx = true, "blocked while another client was stalled", t.Ctx
				}
			}
		}
		for i := int32(0); i < ntasks; i++ {
			t := tasks[i]
			if t.state == stStalled {
				if t.stallWay == 1 { // never comes back
					t.state = stKilled
				} else {
					t.state = stReady
				}
			}
		}
		libAdv = 0
		return true
	}
	for i := int32(0); i < ntasks; i++ {
		t := tasks[i]
		if t.state == stBlocked && t.FromLib {
			continue // it waits for the next request
		}
		if t.state == stBlocked || t.state == stExt {
			if t.state == stExt {
				extN--
			}
			t.Hung, t.HungWhy, t.HungCtx = true, "blocked for ever", t.Ctx
			t.state = stKilled
		}
	}
	return false
}
