package props

import (
	"fmt"
	"io"
	"os"
	"regexp"
	"sort"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/logger"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
	"verif.local/sim/wire"
)

// ---- C16: the log of a debug call belongs to that call

// callLog is the log of one call, or of several if it is shared.
type callLog struct {
	r      *Run
	what   string
	lines  []string
	closed bool
	slow   int
	late   *bool
}

func (l *callLog) Write(msg string) {
	if l.closed {
		*l.late = true
		l.r.Fail("late message", "%s had returned when it logged %q", l.what, msg)
	}
	l.lines = append(l.lines, msg)
	rt.Y(-1)
	if l.slow > 0 && len(l.lines)%l.slow == 0 {
		l.r.Fault("slow logger")
		l.r.S.Sleep(int64(3 + len(l.lines)%5))
	}
}

func (l *callLog) Writef(format string, args ...interface{}) {
	l.Write(fmt.Sprintf(format, args...))
}

// Console is what is printed to the standard output.
var Console *os.File

// consoleOut returns and forgets what was printed.
func consoleOut() string {
	size, err := Console.Seek(0, io.SeekEnd)
	if err != nil {
		panic(err)
	}
	b := make([]byte, size)
	if n, err := Console.ReadAt(b, 0); n != len(b) {
		panic(err)
	}
	if err := Console.Truncate(0); err != nil {
		panic(err)
	}
	return string(b)
}

// merged says where out is not made of the messages of the sequences, those of
// each in their order, every one followed by a line end.
func merged(out string, seqs [][]string) string {
	pos := make([]int, len(seqs))
	seen := map[string]bool{}
	best := 0
	var try func(off int) bool
	try = func(off int) bool {
		k := fmt.Sprint(pos)
		if seen[k] {
			return false
		}
		seen[k] = true
		if off > best {
			best = off
		}
		left := false
		for i, q := range seqs {
			if pos[i] == len(q) {
				continue
			}
			left = true
			m := q[pos[i]]
			if n := off + len(m); n < len(out) && out[n] == '\n' && out[off:n] == m {
				pos[i]++
				if try(n + 1) {
					return true
				}
				pos[i]--
			}
		}
		return !left && off == len(out)
	}
	if try(0) {
		return ""
	}
	rest := out[best:]
	if len(rest) > 200 {
		rest = rest[:200]
	}
	return fmt.Sprintf("after %d bytes there is %q", best, rest)
}

type logOp struct {
	kind   int // 0 encode, 1 header, 2 payload
	name   string
	pdu    agentx.Pdu
	h, d   []byte
	log    *callLog
	shared bool
	con    bool // logs to the console

	ok, done, aloneOK bool
	alone             []string
}

func (o *logOp) call(r *Run, log logger.Log) (ok bool) {
	switch o.kind {
	case 0:
		r.Call("EncodePduDbg", func() { _, ok = agentx.EncodePduDbg(o.pdu, log) })
	case 1:
		r.Call("DecodePduHeaderDbg", func() { _, ok = agentx.DecodePduHeaderDbg(o.h, log) })
	case 2:
		p := o.pdu
		p.Context, p.Params, p.Ranges, p.Varbinds = "", nil, nil, nil
		r.Call("DecodePduPayloadDbg", func() { ok = agentx.DecodePduPayloadDbg(&p, o.d, log) })
	}
	return
}

var failureWords = regexp.MustCompile(`(?i)fail|error|invalid|!!!|refuse|cannot|can't|unable|wrong|bad|reject|not ok`)

func setupC16(r *Run) func() {
	c := r.C
	r.G.Small = true
	var ops []*logOp
	nt := 2 + c.Choose(4)
	tasks := make([][]*logOp, nt)
	late := false
	var frames [][]byte
	damaged := 0
	common := &callLog{r: r, what: "every call", late: &late}
	if c.Choose(3) == 2 {
		common.slow = 1 + c.Choose(9)
	}
	console := Console != nil && c.Choose(6) == 5
	if Console != nil {
		consoleOut()
	}
	for i := range tasks {
		for n := 1 + c.Choose(3); n > 0; n-- {
			o := &logOp{kind: c.Choose(3)}
			p := r.G.Pdu()
			f, roles, ok := ref.Encode(p, ref.Opt{})
			if !ok {
				panic("generator")
			}
			if len(f) > 2500 {
				p = agentx.Pdu{Tag: 13, Params: agentx.NoParams{}, PacketId: uint32(n)}
				f, roles, _ = ref.Encode(p, ref.Opt{})
			}
			if c.Choose(3) == 2 {
				switch {
				case o.kind == 0:
					r.Fault("misuse: " + r.G.Misuse(&p))
				default:
					stale := f
					if len(frames) > 0 {
						stale = frames[0]
					}
					g, kind := wire.Damage(c, f, roles, stale, o.kind == 2)
					if len(g) >= 20 {
						r.Fault(kind)
						f = g
					}
				}
				damaged++
			}
			frames = append(frames, f)
			o.name = []string{"EncodePduDbg", "DecodePduHeaderDbg", "DecodePduPayloadDbg"}[o.kind]
			o.pdu, o.h, o.d = p, f[:20], f[20:]
			if o.kind == 1 && c.Choose(6) == 5 {
				o.h = f[:c.Choose(20)]
				r.Fault("short header")
			}
			if o.kind == 2 {
				h := o.h
				if len(h) != 20 || !readHeader(h, &o.pdu) {
					o.kind, o.name = 1, "DecodePduHeaderDbg"
				}
			}
			if len(ops) > 0 && c.Choose(4) == 3 { // the same input as another call
				q := ops[c.Choose(len(ops))]
				o.kind, o.name, o.pdu, o.h, o.d = q.kind, q.name, q.pdu, q.h, q.d
			}
			o.log = &callLog{r: r, what: o.name, late: &late}
			if c.Choose(3) == 2 {
				o.log.slow = 1 + c.Choose(9)
			}
			if c.Choose(4) == 3 {
				o.log, o.shared = common, true
			}
			if console && c.Choose(2) == 1 {
				o.con, o.shared = true, false
			}
			ops = append(ops, o)
			tasks[i] = append(tasks[i], o)
		}
	}
	serial := func() {
		for _, o := range ops {
			l := &callLog{r: r, what: o.name, late: &late}
			o.aloneOK = o.call(r, l)
			o.alone = l.lines
		}
	}
	after := c.Choose(2) == 1
	if !after {
		serial()
	}
	for i := range tasks {
		mine := tasks[i]
		r.S.Spawn(fmt.Sprintf("caller%d", i), func() {
			for _, o := range mine {
				r.pause()
				if o.con {
					r.Probe("console log")
					o.ok = o.call(r, logger.Console())
					o.done = true
					continue
				}
				o.ok = o.call(r, o.log)
				o.done = true
				if !o.shared {
					o.log.closed = true
				}
			}
		})
	}
	r.trivial = len(ops) < 2 || damaged == 0
	return func() {
		common.closed = true
		printed := ""
		if Console != nil {
			printed = consoleOut()
		}
		if after {
			serial()
		}
		if late {
			return
		}
		var want []string
		for _, o := range ops {
			r.Checked()
			if o.ok != o.aloneOK {
				// C08's business; the logs of different verdicts are not compared
				return
			}
			if len(o.alone) == 0 {
				r.Fail("nothing logged", "%s (ok: %v) wrote nothing to its log", o.name, o.aloneOK)
			}
			if !o.aloneOK && !saysFailure(o.alone) {
				r.Fail("failure not logged", "%s reported not ok, its log does not say so; it ends with %q", o.name, o.alone[len(o.alone)-1])
			}
			if o.con {
				continue
			}
			if o.shared {
				want = append(want, o.alone...)
				continue
			}
			if s := lineDiff(o.alone, o.log.lines); s != "" {
				r.Fail("log differs", "%s (ok: %v) logged among others not what it logs alone: %s", o.name, o.ok, s)
			}
		}
		var seqs [][]string
		for _, mine := range tasks {
			var q []string
			for _, o := range mine {
				if o.con {
					q = append(q, o.alone...)
				}
			}
			seqs = append(seqs, q)
		}
		if s := merged(printed, seqs); s != "" {
			r.Fail("console differs", "the standard output does not show the messages that the calls with the console log write alone, and no others: %s", s)
		}
		got := append([]string(nil), common.lines...)
		sort.Strings(want)
		sort.Strings(got)
		if s := lineDiff(want, got); s != "" {
			r.Fail("shared log differs", "the messages in a log shared by several calls are not those the calls write alone: %s", s)
		}
	}
}

func saysFailure(lines []string) bool {
	for i := len(lines) - 1; i >= 0 && i >= len(lines)-3; i-- {
		if failureWords.MatchString(lines[i]) {
			return true
		}
	}
	return false
}

func lineDiff(want, got []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d messages instead of %d, missing %q", len(got), len(want), want[i])
		}
		if want[i] != got[i] {
			return fmt.Sprintf("message %d is %q instead of %q", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d messages instead of %d, extra %q", len(got), len(want), got[len(want)])
	}
	return ""
}

// readHeader sets the header fields of p as the reference reads them.
func readHeader(h []byte, p *agentx.Pdu) bool {
	q, v, _ := ref.DecodeHeader(h)
	if v != 0 {
		return false
	}
	*p = q
	return true
}
