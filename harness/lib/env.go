package lib

import (
	"fmt"
	"net"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/boltdb/bolt"
	goredis "github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verif.local/h/fakeredis"
)

var Kinds = []string{"memory", "bolt", "redis"}

// Opts configures a provider of any kind.
type Opts struct {
	Access, Refresh time.Duration
	Max             int           // <= 0: no limit (never given to redis)
	Batch           int           // 0: default unless SetBatch
	SetBatch        bool          //
	Clear           time.Duration // 0: off
	Own             bool          // bolt: the provider opens its own file
	Bucket          string
	Prefix          *string
	MetaKey         *string
	Coder           sessionid.Coder // redis
	Skew            time.Duration   // redis: the server's clock is behind
	NoBackoff       bool            // redis: the client repeats at once
	Decoy           bool            // besides the database or client, options that do not count then
	Life            []Life          // if set, the lifetime options are exactly these; Access and Refresh are their effect
}

// Life is a lifetime option.
type Life struct {
	Refresh bool
	D       time.Duration
}

// WithLife returns the options with these lifetime options and the effect they must have: the later one wins, and the
// refresh lifetime is never shorter than the access lifetime. The defaults are one hour and one day.
func (o Opts) WithLife(l []Life) Opts {
	o.Life = l
	o.Access, o.Refresh = time.Hour, 24*time.Hour
	for _, x := range l {
		if x.Refresh {
			o.Refresh = x.D
			o.Access = min(o.Access, x.D)
		} else {
			o.Access = x.D
			o.Refresh = max(o.Refresh, x.D)
		}
	}
	return o
}

func (o Opts) String() string {
	s := fmt.Sprintf("access=%v refresh=%v", o.Access, o.Refresh)
	if o.Life != nil {
		s += fmt.Sprintf(" (from the options %v)", o.Life)
	}
	if o.Max > 0 {
		s += fmt.Sprintf(" max=%d", o.Max)
	}
	if o.SetBatch {
		s += fmt.Sprintf(" batch=%d", o.Batch)
	}
	if o.Clear != 0 {
		s += fmt.Sprintf(" clear=%v", o.Clear)
	}
	if o.Own {
		s += " own-file"
	}
	if o.Bucket != "" {
		s += fmt.Sprintf(" bucket=%q", o.Bucket)
	}
	if o.Prefix != nil {
		s += fmt.Sprintf(" prefix=%q", *o.Prefix)
	}
	if o.MetaKey != nil {
		s += fmt.Sprintf(" metakey=%q", *o.MetaKey)
	}
	if o.Decoy {
		s += " decoy"
	}
	if o.Skew != 0 {
		s += fmt.Sprintf(" server-clock-behind=%v", o.Skew)
	}
	if o.Coder != nil {
		s += fmt.Sprintf(" coder=%T", o.Coder)
	}
	return s
}

// DefaultMetaKey is what the redis provider documents as its reserved hash field unless configured otherwise. The
// checks pass it explicitly, so that they do not depend on the default.
const DefaultMetaKey = "__private_provider_redis"

const defaultPrefix = "sessionid.provider.redis."

func (o Opts) metaKey(kind string) string {
	if kind != "redis" {
		return ""
	}
	if o.MetaKey != nil {
		return *o.MetaKey
	}
	return DefaultMetaKey
}

func (o Opts) prefix() string {
	if o.Prefix != nil {
		return *o.Prefix
	}
	return defaultPrefix
}

// KeyName is what a redis provider calls the key of a token.
func (o Opts) KeyName(tok string) string { return o.prefix() + tok }

func (o Opts) bucket() string {
	if o.Bucket != "" {
		return o.Bucket
	}
	return "sessionid"
}

// Env is a provider and the storage below it.
type Env struct {
	c      *C
	Kind   string
	Opts   Opts
	P      sessionid.Provider
	Path   string   // bolt
	DB     *bolt.DB // bolt, unless Own
	Srv    *fakeredis.Server
	Client *goredis.Client
	Shared bool // the storage belongs to another Env
}

// Storage makes the storage of a kind without a provider.
func (c *C) Storage(kind string, o Opts) *Env {
	e := &Env{c: c, Kind: kind, Opts: o}
	switch kind {
	case "bolt":
		e.Path = filepath.Join(c.TempDir(), "s.db")
	case "redis":
		e.Srv = fakeredis.New()
		e.Srv.Skew = o.Skew
	}
	return e
}

// Open makes a provider of the kind with the options on fresh storage.
func (c *C) Open(kind string, o Opts) *Env {
	e := c.Storage(kind, o)
	e.Start(o)
	return e
}

func (c *C) fatal(e error) {
	if e != nil {
		c.Failf("the provider cannot be opened: %v", e)
	}
}

// Share makes an environment without a provider on the storage of this one.
func (e *Env) Share(o Opts) *Env {
	return &Env{c: e.c, Kind: e.Kind, Opts: o, Path: e.Path, DB: e.DB, Srv: e.Srv, Shared: true}
}

// OpenDB opens the bolt database of the environment.
func (e *Env) OpenDB() *bolt.DB {
	db, err := bolt.Open(e.Path, 0o600, &bolt.Options{Timeout: time.Second})
	if err != nil {
		e.c.Failf("bolt database cannot be opened: %v", err)
	}
	return db
}

// NewClient makes a client of the redis server of the environment.
func (e *Env) NewClient() *goredis.Client {
	o := &goredis.Options{Dialer: e.Srv.Dial, PoolSize: 200, IdleTimeout: -1, IdleCheckFrequency: -1,
		ReadTimeout: time.Minute, WriteTimeout: time.Minute, MaxRetries: 3}
	if e.Opts.NoBackoff {
		o.MinRetryBackoff, o.MaxRetryBackoff = -1, -1
	}
	return goredis.NewClient(o)
}

// Start opens a provider on the storage.
func (e *Env) Start(o Opts) {
	e.c.Do("provider constructor", func() { e.start(o) })
}

func (e *Env) start(o Opts) {
	o.Decoy = o.Decoy || e.c.P(0.2)
	e.Opts = o
	switch e.Kind {
	case "memory":
		e.P = NewMemory(o)
	case "bolt":
		if !o.Own && e.DB == nil {
			e.DB = e.OpenDB()
		}
		p, err := NewBolt(e.DB, e.Path, o)
		e.c.fatal(err)
		e.P = p
	case "redis":
		e.Client = e.NewClient()
		p, err := NewRedis(e.Client, o)
		e.c.fatal(err)
		e.P = p
	}
}

// NewMemory makes a memory provider.
func NewMemory(o Opts) sessionid.Provider {
	opt := []sessionid.ProviderOption{sessionid.WithProviderClear(o.Clear)}
	if o.Life != nil {
		for _, l := range o.Life {
			if l.Refresh {
				opt = append(opt, sessionid.WithProviderRefresh(l.D))
			} else {
				opt = append(opt, sessionid.WithProviderAccess(l.D))
			}
		}
	} else if o.Access != 0 {
		opt = append(opt, sessionid.WithProviderAccess(o.Access), sessionid.WithProviderRefresh(o.Refresh))
	}
	if o.Max != 0 {
		opt = append(opt, sessionid.WithProviderMaxSize(o.Max))
	}
	if o.SetBatch {
		opt = append(opt, sessionid.WithProviderCheckBatch(o.Batch))
	}
	return sessionid.NewProvider(opt...)
}

// NewBolt makes a bolt provider on a database or, with Own, on a file of its own.
func NewBolt(db *bolt.DB, path string, o Opts) (sessionid.Provider, error) {
	opt := []pbolt.Option{pbolt.WithClear(o.Clear), pbolt.WithBucket([]byte(o.bucket()))}
	if o.Life != nil {
		for _, l := range o.Life {
			if l.Refresh {
				opt = append(opt, pbolt.WithRefresh(l.D))
			} else {
				opt = append(opt, pbolt.WithAccess(l.D))
			}
		}
	} else if o.Access != 0 {
		opt = append(opt, pbolt.WithAccess(o.Access), pbolt.WithRefresh(o.Refresh))
	}
	if o.Max != 0 {
		opt = append(opt, pbolt.WithMaxSize(o.Max))
	}
	if o.SetBatch {
		opt = append(opt, pbolt.WithCheckBatch(o.Batch))
	}
	if o.Own {
		opt = append(opt, pbolt.WithFilename(path), pbolt.WithTimeout(time.Second), pbolt.WithFileMode(0o600))
	} else {
		opt = append(opt, pbolt.WithDB(db))
		if o.Decoy {
			opt = append(opt, pbolt.WithFilename("/nonexistent/decoy.db"), pbolt.WithTimeout(time.Nanosecond), pbolt.WithFileMode(0))
		}
	}
	p, err := pbolt.New(opt...)
	if err != nil {
		return nil, err
	}
	return p, nil
}

// NewRedis makes a redis provider.
func NewRedis(client *goredis.Client, o Opts) (sessionid.Provider, error) {
	opt := []predis.Option{predis.WithClient(client), predis.WithMetadataKey(o.metaKey("redis")), predis.WithKeyPrefix(o.prefix())}
	if o.Life != nil {
		for _, l := range o.Life {
			if l.Refresh {
				opt = append(opt, predis.WithRefresh(l.D))
			} else {
				opt = append(opt, predis.WithAccess(l.D))
			}
		}
	} else if o.Access != 0 {
		opt = append(opt, predis.WithAccess(o.Access), predis.WithRefresh(o.Refresh))
	}
	if o.SetBatch {
		opt = append(opt, predis.WithCheckBatch(o.Batch))
	}
	if o.Coder != nil {
		opt = append(opt, predis.WithCoder(o.Coder))
	}
	if o.Decoy {
		opt = append(opt, predis.WithURL("no url"))
	}
	p, err := predis.New(opt...)
	if err != nil {
		return nil, err
	}
	return p, nil
}

// Close closes the provider and the storage.
func (e *Env) Close() {
	if e.P != nil {
		e.c.Do("Close", func() { e.P.Close() })
	}
	e.CloseStorage()
}

// CloseStorage closes what the harness opened.
func (e *Env) CloseStorage() {
	if e.Shared {
		return
	}
	if e.DB != nil {
		e.c.Do("bolt DB.Close", func() { e.DB.Close() })
		e.DB = nil
	}
	if e.Client != nil {
		e.Client.Close()
	}
	if e.Srv != nil {
		e.Srv.CloseAll()
		e.c.gap()
	}
	e.c.Settle()
}

// Item is one unit of stored state that a walk of the storage finds.
type Item struct {
	Where string
	Text  string
}

// Walk lists everything the provider retains. For a memory provider these are the strings and byte slices reachable
// from it; call it only while nothing runs.
func (e *Env) Walk() (out []Item) {
	switch e.Kind {
	case "memory":
		w := walker{seen: map[visit]bool{}, f: func(path, s string) { out = append(out, Item{path, s}) }}
		w.walk("", reflect.ValueOf(e.P), 0)
	case "bolt":
		db := e.DB
		if db == nil {
			db = e.OpenDB()
			defer db.Close()
		}
		out = WalkBolt(db, []byte(e.Opts.bucket()))
	case "redis":
		for k, v := range e.Srv.Dump() {
			if !strings.HasPrefix(k, e.Opts.prefix()) {
				continue
			}
			out = append(out, Item{"key", k})
			for f, x := range v.Hash {
				out = append(out, Item{k + "/field", f}, Item{k + "/value", x})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Where+out[i].Text < out[j].Where+out[j].Text })
	return
}

// WalkBolt lists the contents of one top-level bucket, or of the whole database.
func WalkBolt(db *bolt.DB, name []byte) (out []Item) {
	db.View(func(t *bolt.Tx) error {
		var walk func(path string, b *bolt.Bucket)
		walk = func(path string, b *bolt.Bucket) {
			b.ForEach(func(k, v []byte) error {
				if v == nil {
					out = append(out, Item{path + "/bucket", string(k)})
					walk(path+"/"+string(k), b.Bucket(k))
				} else {
					out = append(out, Item{path + "/key", string(k)}, Item{path + "/" + string(k), string(v)})
				}
				return nil
			})
		}
		if name != nil {
			if b := t.Bucket(name); b != nil {
				walk(string(name), b)
			}
			return nil
		}
		return t.ForEach(func(n []byte, b *bolt.Bucket) error {
			out = append(out, Item{"bucket", string(n)})
			walk(string(n), b)
			return nil
		})
	})
	return
}

// Find returns where a needle is retained.
func Find(items []Item, needle string) (where []string) {
	for _, it := range items {
		if strings.Contains(it.Text, needle) {
			where = append(where, it.Where)
		}
	}
	return
}

type visit struct {
	p uintptr
	t reflect.Type
}

type walker struct {
	seen map[visit]bool
	f    func(path, s string)
}

func (w *walker) walk(path string, v reflect.Value, depth int) {
	if !v.IsValid() || depth > 2000 {
		return
	}
	t := v.Type()
	if t == reflect.TypeFor[sync.Map]() && v.CanAddr() {
		(*sync.Map)(v.Addr().UnsafePointer()).Range(func(k, x any) bool {
			w.walk(path+".key", reflect.ValueOf(k), depth+1)
			w.walk(path+".val", reflect.ValueOf(x), depth+1)
			return true
		})
		return
	}
	if t.PkgPath() == "sync/atomic" && strings.HasPrefix(t.Name(), "Pointer[") {
		// a field of type *[0]*T, and the address in an unsafe.Pointer
		var to reflect.Type
		var at unsafe.Pointer
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); {
			case f.Kind() == reflect.Array && f.Type().Elem().Kind() == reflect.Pointer:
				to = f.Type().Elem().Elem()
			case f.Kind() == reflect.UnsafePointer:
				at = f.UnsafePointer()
			}
		}
		if to != nil && at != nil {
			w.walk(path, reflect.NewAt(to, at), depth+1)
		}
		return
	}
	if pp := t.PkgPath(); strings.HasPrefix(pp, "verif.local/") || pp == "time" || pp == "sync" || pp == "runtime" || pp == "reflect" || pp == "context" {
		return
	}
	switch v.Kind() {
	case reflect.String:
		w.f(path, v.String())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			w.f(path, string(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.walk(path+"[]", v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(path+"[]", v.Index(i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), t}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		it := v.MapRange()
		for it.Next() {
			w.walk(path+".key", it.Key(), depth+1)
			w.walk(path+".val", it.Value(), depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := visit{v.Pointer(), t}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.walk(path, v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(path, v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(path+"."+t.Field(i).Name, v.Field(i), depth+1)
		}
	}
}

// ListenRedis serves the in-memory server on a loopback port, for the checks on the real clock.
func ListenRedis(s *fakeredis.Server) (net.Listener, error) { return ListenRedisAt("127.0.0.1:0", s) }

func ListenRedisAt(addr string, s *fakeredis.Server) (net.Listener, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			s.Serve(nc)
		}
	}()
	return l, nil
}
