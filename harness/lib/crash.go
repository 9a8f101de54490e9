package lib

import (
	"os"
	"path/filepath"
)

type ioEvent struct {
	kind string // write, truncate, synced
	b    []byte
	off  int64
}

// Recorder follows the file of a bolt environment: what is certainly on the disk, what was written since the last sync,
// and the events since the last mark.
type Recorder struct {
	c       *C
	e       *Env
	stable  []byte
	pending []ioEvent
	// at the last mark
	stable0  []byte
	pending0 []ioEvent
	events   []ioEvent
	fresh    bool // nothing was synced yet
}

// Record starts following the file, which must not be open.
func (e *Env) Record() *Recorder {
	r := &Recorder{c: e.c, e: e}
	b, err := os.ReadFile(e.Path)
	r.fresh = err != nil || len(b) == 0
	r.stable = b
	e.IO(func(kind string, b []byte, off int64) error {
		switch kind {
		case "write":
			r.add(ioEvent{kind, append([]byte(nil), b...), off})
		case "truncate", "synced":
			r.add(ioEvent{kind, nil, off})
		}
		return nil
	})
	e.c.Cleanup(func() { e.IO(nil) })
	r.Mark()
	return r
}

// Stop ends following.
func (r *Recorder) Stop() { r.e.IO(nil) }

func (r *Recorder) add(ev ioEvent) {
	r.events = append(r.events, ev)
	r.c.Add("io_events", 1)
	r.stable, r.pending = step(r.stable, r.pending, ev)
	if ev.kind == "synced" {
		r.fresh = false
	}
}

func step(stable []byte, pending []ioEvent, ev ioEvent) ([]byte, []ioEvent) {
	if ev.kind != "synced" {
		return stable, append(pending, ev)
	}
	for _, p := range pending {
		stable = apply(stable, p)
	}
	return stable, nil
}

func apply(img []byte, ev ioEvent) []byte {
	switch ev.kind {
	case "write":
		end := int(ev.off) + len(ev.b)
		if end > len(img) {
			img = append(img, make([]byte, end-len(img))...)
		}
		copy(img[ev.off:], ev.b)
	case "truncate":
		n := int(ev.off)
		if n > len(img) {
			img = append(img, make([]byte, n-len(img))...)
		}
		img = img[:n:n]
	}
	return img
}

// Mark begins a new list of events.
func (r *Recorder) Mark() {
	r.stable0 = append([]byte(nil), r.stable...)
	r.pending0 = append([]ioEvent(nil), r.pending...)
	r.events = nil
}

// Events returns how many there were since the mark.
func (r *Recorder) Events() int { return len(r.events) }

// Fresh reports whether the database was not yet initialised at the mark.
func (r *Recorder) Fresh() bool { return r.fresh }

// Kill returns the file after the first n events since the mark, as a killed process leaves it.
func (r *Recorder) Kill(n int) []byte {
	img := append([]byte(nil), r.stable0...)
	for _, ev := range r.pending0 {
		img = apply(img, ev)
	}
	for _, ev := range r.events[:n] {
		img = apply(img, ev)
	}
	return img
}

// Power returns the file after the first n events since the mark and a loss of power: of what was written since the
// last sync any sectors may or may not be there.
func (r *Recorder) Power(n int) []byte {
	stable, pending := append([]byte(nil), r.stable0...), append([]ioEvent(nil), r.pending0...)
	for _, ev := range r.events[:n] {
		stable, pending = step(stable, pending, ev)
	}
	keep := Pick(r.c, []float64{0, 0.3, 0.5, 0.9, 1})
	for _, ev := range pending {
		if ev.kind == "truncate" {
			if int(ev.off) < len(stable) || r.c.P(keep) {
				stable = apply(stable, ev)
			}
			continue
		}
		const sector = 512
		for i := 0; i < len(ev.b); i += sector {
			if r.c.P(keep) {
				stable = apply(stable, ioEvent{"write", ev.b[i:min(i+sector, len(ev.b))], ev.off + int64(i)})
			}
		}
	}
	return stable
}

// Image makes an environment on a copy of the file.
func (e *Env) Image(img []byte) *Env {
	n := &Env{c: e.c, Kind: "bolt", Opts: e.Opts, Path: filepath.Join(e.c.TempDir(), "image.db")}
	if err := os.WriteFile(n.Path, img, 0o600); err != nil {
		e.c.Inconclusive("image: %v", err)
	}
	return n
}

// Discard closes and removes an image.
func (e *Env) Discard() {
	e.Close()
	os.RemoveAll(filepath.Dir(e.Path))
}
