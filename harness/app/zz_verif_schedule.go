package app

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	abci "github.com/tendermint/tendermint/abci/types"

	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/schedule"
	scheduleKeeper "github.com/arterynetwork/artr/x/schedule/keeper"
	scheduleTypes "github.com/arterynetwork/artr/x/schedule/types"
)

// vTick performs the schedule of a block at time t.
func vTick(t time.Time) {
	vCtx = vCtx.WithBlockTime(t).WithBlockHeight(vCtx.BlockHeight() + 1)
	schedule.BeginBlocker(vCtx, abci.RequestBeginBlock{}, vApp.GetScheduleKeeper())
}

func vAt(ns int64) time.Time { return vT0.Add(time.Duration(ns)) }

type vRun struct {
	id    byte
	at    int64 // block
	due   time.Time
	extra int
}

// ---------- S01: every task runs exactly once, in the first block at or after its time, in order

func Verif_S01_order() {
	n, span := 3, int64(4)
	if rt.Thorough() {
		n, span = 4, 6
	}
	rt.Bound("tasks", "quick 3, thorough 4 tasks at any time offsets within 4 (6) time units (1 ns or 1 s); 2 blocks at any times")
	unit := []int64{1, int64(time.Second)}[rt.Choose("unit", 2)]
	k := vApp.GetScheduleKeeper()
	var runs []vRun
	block := int64(0)
	for _, name := range []string{"a", "b"} {
		name := name
		k.AddHook(name, func(ctx sdk.Context, data []byte, t time.Time) {
			runs = append(runs, vRun{id: data[0], at: block, due: t})
			rt.Assert((data[0]%2 == 0) == (name == "a"), "the handler of the task")
		})
	}
	due := make([]int64, n)
	for i := range due {
		due[i] = rt.Int64("due", 0, span) * unit
		k.ScheduleTask(vCtx, vAt(due[i]), []string{"a", "b"}[i%2], []byte{byte(i)})
	}
	t1 := rt.Int64("block 1", 0, span) * unit
	t2 := t1 + rt.Int64("block 2", 0, span)*unit
	block = 1
	vTick(vAt(t1))
	block = 2
	vTick(vAt(t2))
	block = 3
	vTick(vAt(2*span*unit + 1))
	rt.Assert(len(runs) == n, "every task exactly once")
	count := make([]int, n)
	for j, r := range runs {
		i := int(r.id)
		count[i]++
		want := rt.Ite(due[i] <= t1, 1, rt.Ite(due[i] <= t2, 2, 3))
		rt.Assert(r.at == want, "in the first block at or after its time")
		rt.Assert(r.due.Equal(vAt(due[i])), "the time given to the handler")
		if j > 0 {
			p := int(runs[j-1].id)
			rt.Assert(rt.Or(due[p] < due[i], rt.And(due[p] == due[i], p < i)), "in the order of time and scheduling")
		}
	}
	for _, c := range count {
		rt.Assert(c == 1, "exactly once")
	}
	vTick(vAt(3*span*unit + 1))
	rt.Assert(len(runs) == n, "never again")
	rt.Assert(len(k.GetTasks(vCtx, vAt(0), vAt(100*unit))) == 0, "nothing is left")
}

// Cancelling removes the named tasks and nothing else.
func Verif_S01_cancel() {
	span := int64(3)
	k := vApp.GetScheduleKeeper()
	var runs []vRun
	for _, name := range []string{"a", "b"} {
		name := name
		k.AddHook(name, func(ctx sdk.Context, data []byte, t time.Time) {
			e := 0
			if name == "b" {
				e = 1
			}
			if len(data) == 2 {
				rt.Assert(data[0] == 1 && data[1] == 1, "the data of the task")
				data = []byte{2}
			}
			runs = append(runs, vRun{id: data[0], extra: e})
		})
	}
	n := 3
	due, name, data := make([]int64, n), make([]int, n), make([]byte, n)
	for i := range due {
		due[i] = rt.Int64("due", 0, span)
		name[i] = rt.Choose("name", 2)
		if name[i] == 0 {
			data[i] = byte(rt.Choose("data", 3))
		}
		k.ScheduleTask(vCtx, vAt(due[i]), []string{"a", "b"}[name[i]], [][]byte{{0}, {1}, {1, 1}}[data[i]])
	}
	ct := rt.Int64("cancelled time", 0, span)
	all := rt.Choose("all", 2) == 1
	what := byte(0)
	if all {
		k.DeleteAll(vCtx, vAt(ct), "a")
	} else {
		what = byte(1 + rt.Choose("data", 2))
		k.Delete(vCtx, vAt(ct), "a", [][]byte{{0}, {1}, {1, 1}}[what])
	}
	left := k.GetTasks(vCtx, vAt(0), vAt(span+1))
	vTick(vAt(span))
	want := [2][3]int64{}
	total := int64(0)
	for i := range due {
		gone := rt.And(due[i] == ct, name[i] == 0, rt.Or(all, data[i] == what))
		one := rt.Ite(gone, 0, 1)
		want[name[i]][data[i]] += one
		total += one
	}
	rt.Assert(int64(len(runs)) == total, "the others run")
	rt.Assert(int64(len(left)) == total, "the others are listed")
	got := [2][3]int64{}
	for _, r := range runs {
		got[r.extra][r.id]++
	}
	for a := 0; a < 2; a++ {
		for b := 0; b < 3; b++ {
			rt.Assert(got[a][b] == want[a][b], "exactly the others")
		}
	}
}

// A task scheduled or cancelled by a task.
func Verif_S01_nested() {
	span := int64(4)
	rt.Bound("tasks", "3 tasks at any of 5 times; one of them schedules a task at any of the times from its own on, or cancels another one")
	k := vApp.GetScheduleKeeper()
	count := [4]int{}
	when := [4]int{}
	block := 0
	due := [4]int64{}
	for i := 0; i < 3; i++ {
		due[i] = rt.Int64("due", 0, span)
	}
	due[3] = rt.Int64("new", 0, span)
	rt.Assume(due[3] >= due[0])
	cancel := rt.Choose("cancel", 2) == 1
	cancelled := false
	k.AddHook("a", func(ctx sdk.Context, data []byte, t time.Time) {
		id := int(data[0])
		count[id]++
		when[id] = block
		if id == 0 {
			if cancel {
				cancelled = count[1] == 0
				k.Delete(ctx, vAt(due[1]), "a", []byte{1})
			} else {
				k.ScheduleTask(ctx, vAt(due[3]), "a", []byte{3})
			}
		}
	})
	for i := 0; i < 3; i++ {
		k.ScheduleTask(vCtx, vAt(due[i]), "a", []byte{byte(i)})
	}
	t1 := rt.Int64("block 1", 0, span)
	block = 1
	vTick(vAt(t1))
	block = 2
	vTick(vAt(span))
	block = 3
	vTick(vAt(span + 1))
	rt.Assert(count[0] == 1 && count[2] == 1, "the others run once")
	if cancel {
		// (tasks of the same moment may already be under way)
		if cancelled && rt.Fork(due[1] != due[0]) {
			rt.Assert(count[1] == 0, "a task cancelled before its time does not run")
		}
	} else {
		rt.Assert(count[1] == 1, "the others run once")
		rt.Assert(count[3] == 1, "a task scheduled by a task is not lost")
		rt.Assert(int64(when[3]) >= rt.Ite(due[3] <= t1, 1, 2), "not before its time")
	}
}

// ---------- S02: a failing task does not disturb the others

func Verif_S02_isolation() {
	span := int64(3)
	k := vApp.GetScheduleKeeper()
	var runs []byte
	k.AddHook("ok", func(ctx sdk.Context, data []byte, t time.Time) { runs = append(runs, data[0]) })
	k.AddHook("bad", func(ctx sdk.Context, data []byte, t time.Time) {
		switch data[0] {
		case 0:
			panic("fails")
		case 1:
			var p *vRun
			p.at++
		default:
			_ = data[7]
		}
	})
	n := 3
	want := 0
	for i := 0; i < n; i++ {
		due := rt.Int64("due", 0, span)
		switch rt.Choose("kind", 3) {
		case 0:
			k.ScheduleTask(vCtx, vAt(due), "ok", []byte{byte(i)})
			want++
		case 1:
			k.ScheduleTask(vCtx, vAt(due), "bad", []byte{byte(rt.Choose("failure", 3))})
		default:
			k.ScheduleTask(vCtx, vAt(due), "unknown", nil)
		}
	}
	vTick(vAt(span))
	rt.Assert(len(runs) == want, "every sound task runs")
	vTick(vAt(span + 1))
	rt.Assert(len(runs) == want, "once")
	rt.Assert(len(k.GetTasks(vCtx, vAt(0), vAt(100))) == 0, "failed tasks are not kept")
}

// The key of a moment orders and identifies it.
func Verif_S01_key() {
	lo, hi := int64(0), int64(9000000000000000000)
	a, b := rt.Int64("a", lo, hi), rt.Int64("b", lo, hi)
	ka, kb := scheduleKeeper.Key(time.Unix(0, a).UTC()), scheduleKeeper.Key(time.Unix(0, b).UTC())
	rt.Assert((string(ka) < string(kb)) == (a < b), "keys are ordered as the moments")
	rt.Assert((string(ka) == string(kb)) == (a == b), "different moments have different keys")
}

// Periods and parameters.
func Verif_S02_day() {
	k := vApp.GetScheduleKeeper()
	p := scheduleTypes.Params{DayNanos: rt.Uint64("day", 0, 1<<63)}
	if p.Validate() != nil {
		rt.Assert(rt.Or(p.DayNanos < uint64(time.Minute), p.DayNanos > uint64(24*time.Hour)), "sensible lengths of the day are accepted")
		return
	}
	k.InitGenesis(vCtx, p, nil)
	rt.Assert(k.OneDay(vCtx) > 0 && k.OneDay(vCtx) <= 24*time.Hour, "the day")
	rt.Assert(k.OneWeek(vCtx) == 7*k.OneDay(vCtx), "the week")
	rt.Assert(k.OneMonth(vCtx) == 30*k.OneDay(vCtx), "the month")
}
