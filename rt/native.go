package verifrt

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type event struct {
	G    int    `json:"g"`
	Op   string `json:"op"`
	Case int    `json:"c"`
	Park bool   `json:"p"`
}

type trace struct {
	Func   string            `json:"func"`
	Kind   string            `json:"kind"`
	Inputs map[string]uint64 `json:"inputs"`
	Params map[string]int    `json:"params"`
	Events []event           `json:"events"`
	Ranges [][]string        `json:"ranges"`
	Atomic bool              `json:"atomic"`
}

var (
	tr      trace
	mu      sync.Mutex
	cond    = sync.NewCond(&mu)
	names   = map[string]int{}
	gids    = map[int64]int{}
	nextG   = 1
	live    = 0
	pos     int
	holder  = -1
	settle  time.Time
	ranges  int
	free    bool
	out     = os.Stdout
	endSeen time.Time
	// Free is true when no schedule is imposed.
	timers []*vtimer
	tseq   int
	now    int64
)

type vtimer struct {
	seq    int
	when   int64
	period int64
	ch     chan time.Time
	fn     func()
	active bool
}

func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

// Main replays the trace named by VERIF_TRACE.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_TRACE"))
	if err != nil {
		fmt.Println("REPLAY: ERROR", err)
		os.Exit(4)
	}
	if err := json.Unmarshal(b, &tr); err != nil {
		fmt.Println("REPLAY: ERROR", err)
		os.Exit(4)
	}
	fn := fns[tr.Func]
	if fn == nil {
		fmt.Println("REPLAY: ERROR no harness", tr.Func)
		os.Exit(4)
	}
	free = os.Getenv("VERIF_FREE") != ""
	done := make(chan bool)
	go func() {
		mu.Lock()
		gids[goid()] = 0
		mu.Unlock()
		pre("start")
		fn()
		done <- true
	}()
	go func() {
		for {
			time.Sleep(5 * time.Millisecond)
			mu.Lock()
			// the clock moves also when every goroutine is blocked
			if !free && holder == -1 && pos < len(tr.Events) && tr.Events[pos].G == -1 && time.Now().After(settle) {
				pos++
				fire(tr.Events[pos-1].Case)
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}()
	deadline := time.Now().Add(60 * time.Second)
	for {
		select {
		case <-done:
			fmt.Println("REPLAY: DONE")
			os.Exit(0)
		case <-time.After(50 * time.Millisecond):
		}
		mu.Lock()
		ended := !free && pos >= len(tr.Events)
		if ended && endSeen.IsZero() {
			endSeen = time.Now()
		}
		stuck := ended && time.Since(endSeen) > 6*time.Second
		mu.Unlock()
		if stuck || time.Now().After(deadline) {
			if !ended && !free {
				fmt.Println("REPLAY: DIVERGED stuck at event", pos, "of", len(tr.Events))
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(3)
			}
			fmt.Println("REPLAY: DEADLOCK")
			os.Exit(11)
		}
	}
}

func self() (int, bool) {
	id, ok := gids[goid()]
	return id, ok
}

func diverged(id int, op string) {
	fmt.Printf("REPLAY: DIVERGED at event %d: goroutine %d does %s, schedule has %+v\n", pos, id, op, tr.Events[pos])
	os.Exit(3)
}

// pre waits for this goroutine's turn to perform op.
func pre(op string) event {
	if free {
		return event{Case: -3}
	}
	mu.Lock()
	defer mu.Unlock()
	id, ok := self()
	if !ok {
		return event{Case: -3}
	}
	if holder == id {
		holder = -1
		cond.Broadcast()
	}
	for {
		if pos >= len(tr.Events) {
			if endSeen.IsZero() {
				endSeen = time.Now()
			}
			// the recorded run is over: let everything block or proceed freely
			if time.Since(endSeen) > 1500*time.Millisecond {
				return event{Case: -3}
			}
			cond.Wait()
			continue
		}
		e := tr.Events[pos]
		if holder == -1 && time.Now().After(settle) {
			if e.G == -1 {
				pos++
				fire(e.Case)
				cond.Broadcast()
				continue
			}
			if e.G == id {
				if e.Op != op {
					diverged(id, op)
				}
				pos++
				holder = id
				if e.Park {
					holder = -1
					settle = time.Now().Add(4 * time.Millisecond)
					cond.Broadcast()
				}
				return e
			}
		}
		cond.Wait()
	}
}

type parkFlag struct{ parked bool }

var parkedMu sync.Mutex
var parked = map[int64]bool{}

// Pre is called before a synchronisation operation.
func Pre(op string) {
	e := pre(op)
	parkedMu.Lock()
	parked[goid()] = e.Park
	parkedMu.Unlock()
}

// Post is called after a synchronisation operation.
func Post() {
	parkedMu.Lock()
	p := parked[goid()]
	parked[goid()] = false
	parkedMu.Unlock()
	if p {
		pre("resume")
	}
}

// Sel replays the choice of a select statement.
func Sel(hasDefault bool) int {
	e := pre("select")
	if e.Case == -3 || e.Case == -2 {
		select {}
	}
	parkedMu.Lock()
	parked[goid()] = e.Park
	parkedMu.Unlock()
	return e.Case
}

// Sel1 is a select of one case.
func Sel1(op string) int {
	Pre(op)
	return 0
}

// P marks an atomic access.
func P[T any](x T) T {
	if tr.Atomic {
		pre("atomic")
	}
	return x
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	Pre("recv")
	v := <-ch
	Post()
	return v
}

// Recv2 receives from ch with the ok flag.
func Recv2[T any](ch <-chan T) (T, bool) {
	Pre("recv")
	v, ok := <-ch
	Post()
	return v, ok
}

func newG() int {
	mu.Lock()
	defer mu.Unlock()
	id := nextG
	nextG++
	live++
	return id
}

func enter(id int) {
	mu.Lock()
	gids[goid()] = id
	mu.Unlock()
	pre("start")
}

func exit() {
	mu.Lock()
	id, ok := self()
	live--
	if ok && holder == id {
		holder = -1
	}
	delete(gids, goid())
	cond.Broadcast()
	mu.Unlock()
}

// exitG releases the schedule unless the goroutine is crashing.
func exitG(ok *bool) {
	if *ok {
		exit()
	}
}

func W0(f func()) func() {
	id := newG()
	return func() { enter(id); ok := false; defer exitG(&ok); f(); ok = true }
}
func W1[A any](f func(A)) func(A) {
	id := newG()
	return func(a A) { enter(id); ok := false; defer exitG(&ok); f(a); ok = true }
}
func W2[A, B any](f func(A, B)) func(A, B) {
	id := newG()
	return func(a A, b B) { enter(id); ok := false; defer exitG(&ok); f(a, b); ok = true }
}
func W3[A, B, C any](f func(A, B, C)) func(A, B, C) {
	id := newG()
	return func(a A, b B, c C) { enter(id); ok := false; defer exitG(&ok); f(a, b, c); ok = true }
}
func W4[A, B, C, D any](f func(A, B, C, D)) func(A, B, C, D) {
	id := newG()
	return func(a A, b B, c C, d D) { enter(id); ok := false; defer exitG(&ok); f(a, b, c, d); ok = true }
}
func W0R[R any](f func() R) func() {
	id := newG()
	return func() { enter(id); ok := false; defer exitG(&ok); f(); ok = true }
}
func W1R[A, R any](f func(A) R) func(A) {
	id := newG()
	return func(a A) { enter(id); ok := false; defer exitG(&ok); f(a); ok = true }
}
func W2R[A, B, R any](f func(A, B) R) func(A, B) {
	id := newG()
	return func(a A, b B) { enter(id); ok := false; defer exitG(&ok); f(a, b); ok = true }
}
func W3R[A, B, C, R any](f func(A, B, C) R) func(A, B, C) {
	id := newG()
	return func(a A, b B, c C) { enter(id); ok := false; defer exitG(&ok); f(a, b, c); ok = true }
}

// Keys returns the keys of m in the recorded iteration order.
func Keys[K comparable, V any](m map[K]V) []K {
	var ks []K
	for k := range m {
		ks = append(ks, k)
	}
	if free {
		return ks
	}
	mu.Lock()
	i := ranges
	ranges++
	mu.Unlock()
	if i >= len(tr.Ranges) {
		return ks
	}
	rank := map[string]int{}
	for j, s := range tr.Ranges[i] {
		rank[s] = j + 1
	}
	sort.SliceStable(ks, func(a, b int) bool {
		x, y := rank[fmt.Sprint(ks[a])], rank[fmt.Sprint(ks[b])]
		if x == 0 {
			x = 1 << 30
		}
		if y == 0 {
			y = 1 << 30
		}
		return x < y
	})
	return ks
}

// ---- virtual time ----

var base = time.Unix(1700000000, 0)

func TimeNow() time.Time {
	if free {
		return time.Now()
	}
	mu.Lock()
	defer mu.Unlock()
	return base.Add(time.Duration(now))
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

func newTimer(d, period time.Duration, fn func()) *vtimer {
	mu.Lock()
	defer mu.Unlock()
	if d < 0 {
		d = 0
	}
	tseq++
	t := &vtimer{seq: tseq, when: now + int64(d), period: int64(period), ch: make(chan time.Time, 1), fn: fn, active: true}
	timers = append(timers, t)
	return t
}

func fire(seq int) {
	for _, t := range timers {
		if t.seq == seq {
			if t.when > now {
				now = t.when
			}
			if t.period > 0 {
				t.when += t.period
			}
			if t.fn != nil {
				f := t.fn
				id := nextG
				nextG++
				live++
				go func() { enter(id); ok := false; defer exitG(&ok); f(); ok = true }()
				return
			}
			select {
			case t.ch <- base.Add(time.Duration(now)):
			default:
			}
			settle = time.Now().Add(2 * time.Millisecond)
			return
		}
	}
	fmt.Println("REPLAY: DIVERGED unknown timer", seq)
	os.Exit(3)
}

func TimeAfter(d time.Duration) <-chan time.Time {
	if free {
		return time.After(d)
	}
	return newTimer(d, 0, nil).ch
}

func TimeTick(d time.Duration) <-chan time.Time {
	if free {
		return time.Tick(d)
	}
	return newTimer(d, d, nil).ch
}

func TimeSleep(d time.Duration) {
	if free {
		time.Sleep(d)
		return
	}
	Pre("sleep")
	t := newTimer(d, 0, nil)
	<-t.ch
	Post()
}

func TimeNewTimer(d time.Duration) *time.Timer {
	if free {
		return time.NewTimer(d)
	}
	t := newTimer(d, 0, nil)
	return &time.Timer{C: t.ch}
}

func TimeNewTicker(d time.Duration) *time.Ticker {
	if free {
		return time.NewTicker(d)
	}
	t := newTimer(d, d, nil)
	return &time.Ticker{C: t.ch}
}

func TimeAfterFunc(d time.Duration, f func()) *time.Timer {
	if free {
		return time.AfterFunc(d, f)
	}
	t := newTimer(d, 0, f)
	return &time.Timer{C: t.ch}
}

// TimerStop stands for (*time.Timer).Stop.
func TimerStop(t *time.Timer) bool {
	if free {
		return t.Stop()
	}
	mu.Lock()
	defer mu.Unlock()
	for _, v := range timers {
		if (<-chan time.Time)(v.ch) == t.C {
			w := v.active
			v.active = false
			return w
		}
	}
	return false
}

// ---- harness API ----

func input(name string) (uint64, bool) {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	v, ok := tr.Inputs[fmt.Sprintf("%s#%d", name, k)]
	return v, ok
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { v, _ := input(name); return v == 1 }

// Byte is an arbitrary byte.
func Byte(name string) byte { v, _ := input(name); return byte(v) }

// U64 is an arbitrary 64-bit word.
func U64(name string) uint64 { v, _ := input(name); return v }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := input(name)
	if !ok {
		return lo
	}
	return int(int64(v))
}

// Choice is an arbitrary integer in [0,n), decided eagerly.
func Choice(name string, n int) int { v, _ := input(name); return int(v) }

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		v, _ := input(name)
		b[i] = byte(v)
	}
	return b
}

// Concrete forks over the values of x.
func Concrete(x int) int { return x }

// Assume restricts the executions considered.
func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY: ASSUME failed")
		os.Exit(5)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("REPLAY: ASSERT " + msg)
		os.Exit(10)
	}
}

// Reach records that a point was reached.
func Reach(tag string) {}

// Obs records an observation compared between the engine and the native run.
func Obs(tag string, v interface{}) {
	s := ""
	switch x := v.(type) {
	case nil:
		s = "nil"
	case string:
		s = fmt.Sprintf("%q", x)
	default:
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.String {
			s = fmt.Sprintf("%q", rv.String())
		} else {
			s = fmt.Sprint(v)
		}
	}
	fmt.Fprintf(out, "REPLAY: OBS %s=%s\n", tag, s)
}

// Param is a bound of the check.
func Param(name string) int { return tr.Params[name] }

// RepoFiles returns the contents of the files of the repository in the given
// directory whose names end in suffix, in the order of their names. Only in the engine.
func RepoFiles(dir, suffix string) string { return "" }

// Symbolic is true in the engine.
func Symbolic() bool { return false }

// Stop ends the path.
func Stop() { fmt.Println("REPLAY: DONE"); os.Exit(0) }

// Unsupported abandons the path as undecided.
func Unsupported(why string) { fmt.Println("REPLAY: DONE unsupported"); os.Exit(0) }

// Preempt resets the number of preemptions left.
func Preempt(n int) {}

// And is a non-forking conjunction.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is a non-forking disjunction.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Ite is a non-forking conditional.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Drain lets every other goroutine run until nothing can; timers says how many
// timers may fire meanwhile (0 none, -1 all). It returns how many goroutines
// are blocked.
func Drain(timers int) int {
	if free {
		time.Sleep(250 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		return live
	}
	pre("drain")
	mu.Lock()
	defer mu.Unlock()
	return live
}

var harnessMu sync.Mutex

// HLock guards the harness's own records; it is not a scheduling point.
func HLock() { harnessMu.Lock() }

// HUnlock releases HLock.
func HUnlock() { harnessMu.Unlock() }

// TickerStop stands for (*time.Ticker).Stop.
func TickerStop(t *time.Ticker) {
	if free {
		t.Stop()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, v := range timers {
		if (<-chan time.Time)(v.ch) == t.C {
			v.active = false
		}
	}
}
