// Package lib contains what the checks share: in-memory connections, an independent SignalR codec, test hubs.
package lib

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"
)

// Chunk is what one Write put on the wire.
type Chunk struct {
	B  []byte
	At time.Time
}

// queue is one direction of an in-memory connection. It never blocks writers unless Cap is set.
type queue struct {
	mx      sync.Mutex
	cond    *sync.Cond
	chunks  [][]byte
	size    int
	cap     int // 0: unlimited. Otherwise Write blocks while size >= cap
	closed  error
	log     []Chunk // everything ever written
	total   int
	readCut func(avail int) int // how many bytes a read gets at most
	join    bool                // reads may cross write boundaries
	zero    func() bool         // a read returns nothing although data is there
	bundle  bool                // the last read returns data together with the error of closed
	stalled bool                // reads block although data is there
	failAt  int                 // write error after so many bytes, if > 0
	failErr error
	onceAt  int // one write error after so many bytes, if > 0. Later writes are accepted again
	onceErr error
	onceHit bool
	wcut    func(n int) int
	onWrite func(b []byte)
}

func newQueue() *queue {
	q := &queue{}
	q.cond = sync.NewCond(&q.mx)
	return q
}

// End is one end of an in-memory connection. It implements signalr.Connection.
type End struct {
	ctx     context.Context
	cancel  context.CancelFunc
	mx      sync.Mutex
	id      string
	in      *queue
	out     *queue
	EOF     bool // reads after close of the peer return io.EOF, otherwise an error
	writeMx sync.Mutex
	Writes  int
}

// NewPipe returns the two ends of an in-memory connection.
func NewPipe(ctx context.Context, idA, idB string) (*End, *End) {
	ab, ba := newQueue(), newQueue()
	a := newEnd(ctx, idA, ba, ab)
	b := newEnd(ctx, idB, ab, ba)
	return a, b
}

func newEnd(ctx context.Context, id string, in, out *queue) *End {
	c, cancel := context.WithCancel(ctx)
	e := &End{ctx: c, cancel: cancel, id: id, in: in, out: out}
	context.AfterFunc(c, func() {
		for _, q := range []*queue{in, out} {
			q.mx.Lock()
			q.cond.Broadcast()
			q.mx.Unlock()
		}
	})
	return e
}

func (e *End) Context() context.Context { return e.ctx }
func (e *End) ConnectionID() string {
	e.mx.Lock()
	defer e.mx.Unlock()
	return e.id
}
func (e *End) SetConnectionID(id string) {
	e.mx.Lock()
	defer e.mx.Unlock()
	e.id = id
}

// Cancel cancels the context of this end.
func (e *End) Cancel() { e.cancel() }

var ErrClosed = errors.New("connection closed by peer")

func (e *End) Read(p []byte) (int, error) {
	q := e.in
	q.mx.Lock()
	defer q.mx.Unlock()
	for {
		if e.ctx.Err() != nil {
			return 0, e.ctx.Err()
		}
		if len(q.chunks) > 0 && !q.stalled {
			if len(p) == 0 {
				return 0, nil
			}
			if q.zero != nil && q.zero() {
				return 0, nil
			}
			if q.join && len(q.chunks) > 1 {
				all := make([]byte, 0, q.size)
				for _, c := range q.chunks {
					all = append(all, c...)
				}
				q.chunks = [][]byte{all}
			}
			c := q.chunks[0]
			n := len(c)
			if q.readCut != nil {
				if m := q.readCut(n); m < n && m > 0 {
					n = m
				}
			}
			n = copy(p, c[:n])
			if n == len(c) {
				q.chunks = q.chunks[1:]
			} else {
				q.chunks[0] = c[n:]
			}
			q.size -= n
			q.cond.Broadcast()
			if q.bundle && len(q.chunks) == 0 {
				return n, q.closed
			}
			return n, nil
		}
		if q.closed != nil && len(q.chunks) == 0 {
			return 0, q.closed
		}
		q.cond.Wait()
	}
}

func (e *End) Write(p []byte) (int, error) {
	q := e.out
	q.mx.Lock()
	defer q.mx.Unlock()
	e.Writes++
	written := 0
	for {
		if e.ctx.Err() != nil {
			return 0, e.ctx.Err()
		}
		if q.closed != nil {
			return 0, q.closed
		}
		if q.cap == 0 || q.size < q.cap {
			n := len(p) - written
			if q.cap > 0 && n > q.cap-q.size {
				n = q.cap - q.size
			}
			if q.failAt > 0 && q.total+n >= q.failAt {
				m := q.failAt - q.total
				if m < 0 {
					m = 0
				}
				if m > n {
					m = n
				}
				q.push(p[written : written+m])
				q.closed = q.failErr
				q.cond.Broadcast()
				return written + m, q.failErr
			}
			if q.onceAt > 0 && q.total+n >= q.onceAt {
				m := min(max(q.onceAt-q.total, 0), n)
				if written+m < len(p) {
					q.push(p[written : written+m])
					q.onceAt, q.onceHit = 0, true
					return written + m, q.onceErr
				}
				n = m
			}
			q.push(p[written : written+n])
			written += n
			if written == len(p) {
				return written, nil
			}
		}
		q.cond.Wait()
	}
}

// WriteLast writes p and ends the direction away from this end. The read which gets the last bytes of p gets err together with them.
func (e *End) WriteLast(p []byte, err error) {
	q := e.out
	q.mx.Lock()
	defer q.mx.Unlock()
	if len(p) > 0 {
		q.chunks = append(q.chunks, append([]byte{}, p...))
		q.size += len(p)
		q.total += len(p)
		q.bundle = true
	}
	q.closed = err
	q.cond.Broadcast()
}

func (q *queue) push(b []byte) {
	if len(b) == 0 {
		return
	}
	c := append([]byte{}, b...)
	q.chunks = append(q.chunks, c)
	q.size += len(c)
	q.total += len(c)
	q.log = append(q.log, Chunk{c, time.Now()})
	q.cond.Broadcast()
	if q.onWrite != nil {
		q.onWrite(c)
	}
}

// CloseWith ends both directions: the peer reads what was written before and then gets err.
func (e *End) CloseWith(err error) {
	if err == nil {
		err = io.EOF
	}
	for _, q := range []*queue{e.in, e.out} {
		q.mx.Lock()
		if q.closed == nil {
			q.closed = err
		}
		q.cond.Broadcast()
		q.mx.Unlock()
	}
}

// CloseWrite ends the direction away from this end only.
func (e *End) CloseWrite(err error) {
	q := e.out
	q.mx.Lock()
	if q.closed == nil {
		q.closed = err
	}
	q.cond.Broadcast()
	q.mx.Unlock()
}

// SetReadCut sets how reads of this end are cut.
func (e *End) SetReadCut(join bool, cut func(avail int) int) {
	e.in.mx.Lock()
	e.in.join, e.in.readCut = join, cut
	e.in.mx.Unlock()
}

// SetZeroReads sets when reads of this end return (0, nil), which io.Reader allows. zero must not be true many times in a
// row.
func (e *End) SetZeroReads(zero func() bool) {
	e.in.mx.Lock()
	e.in.zero = zero
	e.in.mx.Unlock()
}

// SetWriteCap lets writes of this end block while n bytes are unread by the peer.
func (e *End) SetWriteCap(n int) {
	e.out.mx.Lock()
	e.out.cap = n
	e.out.cond.Broadcast()
	e.out.mx.Unlock()
}

// FailWriteAfter lets writes of this end fail after n more bytes.
func (e *End) FailWriteAfter(n int, err error) {
	e.out.mx.Lock()
	e.out.failAt, e.out.failErr = e.out.total+n, err
	if n <= 0 {
		e.out.closed = err
	}
	e.out.cond.Broadcast()
	e.out.mx.Unlock()
}

// FailWriteOnce lets one write of this end take only a part of its data when n more bytes were written. It returns
// err then, which may be nil. Later writes are accepted.
func (e *End) FailWriteOnce(n int, err error) {
	e.out.mx.Lock()
	e.out.onceAt, e.out.onceErr = e.out.total+max(n, 1), err
	e.out.mx.Unlock()
}

// FailedOnce tells if the write of FailWriteOnce has happened.
func (e *End) FailedOnce() bool {
	e.out.mx.Lock()
	defer e.out.mx.Unlock()
	return e.out.onceHit
}

// StallRead holds back data for reads of this end.
func (e *End) StallRead(on bool) {
	e.in.mx.Lock()
	e.in.stalled = on
	e.in.cond.Broadcast()
	e.in.mx.Unlock()
}

// OnWrite sets a hook which is called (under lock) with everything this end writes.
func (e *End) OnWrite(f func(b []byte)) {
	e.out.mx.Lock()
	e.out.onWrite = f
	e.out.mx.Unlock()
}

// Sent returns everything this end has written so far.
func (e *End) Sent() []byte {
	e.out.mx.Lock()
	defer e.out.mx.Unlock()
	var b []byte
	for _, c := range e.out.log {
		b = append(b, c.B...)
	}
	return b
}

// SentLog returns the writes of this end with their times.
func (e *End) SentLog() []Chunk {
	e.out.mx.Lock()
	defer e.out.mx.Unlock()
	return append([]Chunk{}, e.out.log...)
}

// Received returns everything the other end has written so far.
func (e *End) Received() []byte {
	e.in.mx.Lock()
	defer e.in.mx.Unlock()
	var b []byte
	for _, c := range e.in.log {
		b = append(b, c.B...)
	}
	return b
}

// ReceivedLog returns the writes of the other end with their times.
func (e *End) ReceivedLog() []Chunk {
	e.in.mx.Lock()
	defer e.in.mx.Unlock()
	return append([]Chunk{}, e.in.log...)
}

// receivedFrom returns the writes of the other end from the one which contains byte pos on, and where it starts.
// ci and cstart are a chunk at or before it and are moved.
func (e *End) receivedFrom(ci, cstart *int, pos int) ([]Chunk, int) {
	e.in.mx.Lock()
	defer e.in.mx.Unlock()
	log := e.in.log
	for *ci < len(log) && *cstart+len(log[*ci].B) <= pos {
		*cstart += len(log[*ci].B)
		*ci++
	}
	return append([]Chunk{}, log[*ci:]...), *cstart
}

// Drain discards what waits to be read by this end (raw peers look at Received only).
func (e *End) Drain() {
	e.in.mx.Lock()
	e.in.chunks, e.in.size = nil, 0
	e.in.cond.Broadcast()
	e.in.mx.Unlock()
}

// Pending is the number of bytes not yet read by the peer.
func (e *End) Pending() int {
	e.out.mx.Lock()
	defer e.out.mx.Unlock()
	return e.out.size
}

// WriteChunks writes b in pieces of the given sizes, the rest as a whole.
func (e *End) WriteChunks(b []byte, cuts []int) {
	for _, n := range cuts {
		if n <= 0 {
			continue
		}
		if n >= len(b) {
			break
		}
		_, _ = e.Write(b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		_, _ = e.Write(b)
	}
}
