package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
)

// ErrPlanned is what a planned failure returns.
var ErrPlanned = errors.New("planned failure")

// ReadPlan says how a reader delivers its bytes.
type ReadPlan struct {
	Style int   `json:"st"`
	Seed  int   `json:"seed"`
	Fail  int   `json:"fail"` // fail after this many bytes, -1: never (then the end of the data is EOF)
	Steps []int `json:"steps,omitempty"`
	Again bool  `json:"again,omitempty"` // after a failure that cannot be overlooked it delivers the rest
}

// Styles of ReadPlan.
const (
	RBytes    = iota // bytes.Reader (has Seek, ReadByte, WriteTo)
	ROne             // one byte per call
	RFrag            // random fragments
	RFragEOF         // random fragments, EOF or failure together with the last bytes
	RZero            // random fragments, with calls that deliver nothing
	RWhole           // as much as asked for
	RWholeEOF        // as much as asked for, EOF or failure together with the last bytes
	RBuffer          // bytes.Buffer
	RBufio           // bufio.Reader over fragments
	RSeek            // fragments, and has Seek, ReadByte, WriteTo
	RSteps           // the given step sizes (0: a call that delivers nothing), then as much as asked for
	RStepsEOF        // the same, EOF or failure together with the last bytes
	NStyles
)

type planReader struct {
	p     ReadPlan
	data  []byte
	pos   int
	end   int
	r     *rand.Rand
	calls int
	hits  int // calls at the end
	on    bool
}

func (r *planReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	var err error = io.EOF
	failing := r.p.Fail >= 0 && r.p.Fail <= len(r.data) && !r.on
	if failing {
		err = ErrPlanned
	}
	if r.pos >= r.end {
		if failing && r.p.Again {
			r.on, r.end = true, len(r.data)
			return 0, err
		}
		if r.hits++; r.hits > 100000 {
			panic("reader keeps being called after it failed")
		}
		return 0, err
	}
	n, asked := len(p), len(p)
	switch r.p.Style {
	case ROne:
		n = 1
	case RFrag, RFragEOF, RSeek, RBufio:
		n = 1 + r.r.Intn(5)
	case RZero:
		n = r.r.Intn(4)
	case RSteps, RStepsEOF:
		if r.calls <= len(r.p.Steps) {
			n = r.p.Steps[r.calls-1]
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > r.end-r.pos {
		n = r.end - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == r.end && n > 0 && (r.p.Style == RFragEOF || r.p.Style == RWholeEOF || r.p.Style == RStepsEOF) {
		if failing && r.p.Again && n < asked {
			r.on, r.end = true, len(r.data)
		}
		return n, err
	}
	return n, nil
}

type seekReader struct{ planReader }

func (r *seekReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(r.pos)
	default:
		off += int64(len(r.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = int(off)
	return off, nil
}
func (r *seekReader) ReadByte() (byte, error) {
	var b [1]byte
	_, err := io.ReadFull(&r.planReader, b[:])
	return b[0], err
}
func (r *seekReader) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(r.data[r.pos:r.end])
	r.pos += n
	return int64(n), err
}

// NewReader returns a reader for data, and a function that tells how many bytes were taken from it.
// avail is the number of bytes it can deliver.
func NewReader(p ReadPlan, data []byte) (rd io.Reader, taken func() int, avail int) {
	end := len(data)
	if p.Fail >= 0 && p.Fail < end {
		end = p.Fail
	}
	switch p.Style {
	case RBytes:
		r := bytes.NewReader(data[:end])
		return r, func() int { return end - r.Len() }, end
	case RBuffer:
		r := bytes.NewBuffer(data[:end:end])
		return r, func() int { return end - r.Len() }, end
	case RSeek:
		r := &seekReader{planReader{p: p, data: data, end: end, r: rand.New(rand.NewSource(int64(p.Seed)))}}
		return r, func() int { return r.pos }, end
	}
	r := &planReader{p: p, data: data, end: end, r: rand.New(rand.NewSource(int64(p.Seed)))}
	if p.Style == RBufio {
		b := bufio.NewReaderSize(r, 16)
		return b, func() int { return r.pos - b.Buffered() }, end
	}
	return r, func() int { return r.pos }, end
}

// WritePlan says how a writer fails.
type WritePlan struct {
	At   int `json:"at"`   // accept this many bytes, -1: never fail
	Mode int `json:"mode"` // 0: take what fits, then fail; 1: take nothing of the failing call; 2: take all of it and fail
}

type PlanWriter struct {
	P      WritePlan
	Acc    []byte
	Failed bool
	After  bool // bytes were offered after the failure
	Err    error
}

func (w *PlanWriter) Write(p []byte) (int, error) {
	if w.Failed {
		if len(p) > 0 {
			w.After = true
		}
		return 0, w.Err
	}
	if w.P.At < 0 || len(p) == 0 {
		w.Acc = append(w.Acc, p...)
		return len(p), nil
	}
	n := len(p)
	switch {
	case w.P.Mode == 2:
		if len(w.Acc)+n < w.P.At {
			break
		}
		w.Failed = true
	case len(w.Acc)+n > w.P.At:
		w.Failed = true
		if n = w.P.At - len(w.Acc); w.P.Mode == 1 || n < 0 {
			n = 0
		}
	}
	w.Acc = append(w.Acc, p[:n]...)
	if w.Failed {
		return n, w.Err
	}
	return n, nil
}

// RichWriter is a PlanWriter with the optional interfaces that writers often have. All of them count as Write.
type RichWriter struct{ *PlanWriter }

func (w RichWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w RichWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w RichWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 7)
	for {
		k, rerr := r.Read(b)
		m, werr := w.Write(b[:k])
		n += int64(m)
		if werr != nil {
			return n, werr
		}
		if rerr != nil {
			if rerr == io.EOF {
				rerr = nil
			}
			return n, rerr
		}
	}
}

func (w RichWriter) Grow(n int) {
	if n < 0 {
		panic("negative count")
	}
}

func (w RichWriter) Len() int      { return len(w.Acc) }
func (w RichWriter) Bytes() []byte { return w.Acc }
func (w RichWriter) Flush() error  { return nil }
func (w RichWriter) Close() error  { panic("closed a writer that is not ours") }

// As hides (even kinds) or shows (odd kinds) optional interfaces.
func (w *PlanWriter) As(kind int) io.Writer {
	if kind%2 == 1 {
		return RichWriter{w}
	}
	return w
}

// Behaviours reads the behaviours that TLC printed (lines "EMIT {...}") among its other output.
func Behaviours(path string, each func(d []byte) bool) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Bytes()
		if !bytes.HasPrefix(b, []byte("\"EMIT ")) {
			continue
		}
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
		if !each([]byte(s[5:])) {
			return nil
		}
	}
	return sc.Err()
}
