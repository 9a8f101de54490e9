// Package fakeredis is an in-memory redis server for the harness: RESP2 over net.Pipe, key expiry on time.Now (the
// virtual clock inside a bubble), MULTI/EXEC/WATCH, and a fault plan.
package fakeredis

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/h/vsched"
)

// Fault is what happens to one command.
type Fault int

const (
	None       Fault = iota
	DropBefore       // the connection breaks before the command has any effect
	DropAfter        // the command takes effect, the connection breaks instead of the reply
	ErrReply         // the command has no effect, an error is replied
	Loading          // as ErrReply with an error that clients retry
	LateReply        // the command takes effect, the reply comes after Stall
	LateEffect       // the command takes effect, and is replied to, after Stall
)

type entry struct {
	hash    map[string]string
	set     map[string]bool
	str     string
	kind    byte // h, S, s
	expires time.Time
}

type Server struct {
	mu      sync.Mutex
	db      map[string]*entry
	version map[string]uint64 // of keys, for WATCH
	clock   uint64
	conns   map[net.Conn]bool
	// Plan decides the fault of each command; nil for none. index counts commands from 0, those inside MULTI too.
	Plan  func(index int, name string, args []string) Fault
	index int
	// Down makes new connections fail.
	down bool
	// Trace, if set, is told every command that is executed.
	Trace func(name string, args []string)
	// Skew is how much the server's clock is behind.
	Skew     time.Duration
	Stall    time.Duration
	Commands int
	// Auth, if set, is the user and password that a connection must give.
	Auth [2]string
	dbs  map[string]*Server // the other databases, by number
}

func New() *Server {
	return &Server{db: map[string]*entry{}, version: map[string]uint64{}, conns: map[net.Conn]bool{}}
}

// Dial is a redis.Options.Dialer.
func (s *Server) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	s.mu.Lock()
	down := s.down
	s.mu.Unlock()
	if down {
		return nil, errors.New("injected: connection refused")
	}
	a, b := net.Pipe()
	s.Serve(b)
	return a, nil
}

// Serve starts serving a connection.
func (s *Server) Serve(b net.Conn) {
	s.mu.Lock()
	s.conns[b] = true
	s.mu.Unlock()
	go s.serve(b)
}

// Down makes the server unreachable: all connections break and new ones fail.
func (s *Server) Down(down bool) {
	s.mu.Lock()
	s.down = down
	s.mu.Unlock()
	if down {
		s.CloseAll()
	}
}

// CloseAll breaks all connections.
func (s *Server) CloseAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

func (s *Server) SetPlan(f func(index int, name string, args []string) Fault) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Plan, s.index = f, 0
}

// Index returns how many commands were seen since SetPlan.
func (s *Server) Index() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.index
}

// DB returns one of the databases of the server; the server itself is number 0.
func (s *Server) DB(n string) *Server {
	if n == "0" {
		return s
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dbs[n] == nil {
		if s.dbs == nil {
			s.dbs = map[string]*Server{}
		}
		s.dbs[n] = New()
	}
	return s.dbs[n]
}

// Key is one key of the store, as Dump returns it.
type Key struct {
	Kind    byte
	Hash    map[string]string
	Str     string
	Members []string
	Expires time.Time
}

// Dump returns a copy of the live keys.
func (s *Server) Dump() map[string]Key {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]Key{}
	for k := range s.db {
		e := s.get(k)
		if e == nil {
			continue
		}
		c := Key{Kind: e.kind, Str: e.str, Expires: e.expires}
		if e.hash != nil {
			c.Hash = map[string]string{}
			for f, v := range e.hash {
				c.Hash[f] = v
			}
		}
		for m := range e.set {
			c.Members = append(c.Members, m)
		}
		sort.Strings(c.Members)
		out[k] = c
	}
	return out
}

// Set stores a plain string, HSet a hash, as another application would.
func (s *Server) Set(k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.db[k] = &entry{kind: 's', str: v}
	s.touch(k)
}

func (s *Server) HSet(k string, kv map[string]string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	h := map[string]string{}
	for f, v := range kv {
		h[f] = v
	}
	s.db[k] = &entry{kind: 'h', hash: h}
	s.touch(k)
}

func (s *Server) now() time.Time { return time.Now().Add(-s.Skew) }

func (s *Server) touch(k string) {
	s.clock++
	s.version[k] = s.clock
}

func (s *Server) get(k string) *entry {
	e := s.db[k]
	if e != nil && !e.expires.IsZero() && !e.expires.After(s.now()) {
		delete(s.db, k)
		s.touch(k)
		return nil
	}
	return e
}

func (s *Server) del(k string) bool {
	if s.get(k) == nil {
		return false
	}
	delete(s.db, k)
	s.touch(k)
	return true
}

type conn struct {
	s       *Server
	root    *Server
	authed  bool
	multi   bool
	bad     bool
	queue   [][]string
	watched map[string]uint64
}

var errDrop = errors.New("drop")

func (s *Server) serve(nc net.Conn) {
	c := &conn{s: s, root: s, watched: map[string]uint64{}}
	// Replies go through a queue so that a client that writes a whole pipeline before it reads never blocks.
	var (
		mu   sync.Mutex
		out  []byte
		kick = make(chan struct{}, 1)
		end  = make(chan struct{})
	)
	go func() {
		defer nc.Close()
		for {
			mu.Lock()
			b := out
			out = nil
			mu.Unlock()
			if len(b) > 0 {
				if _, err := nc.Write(b); err != nil {
					return
				}
				continue
			}
			select {
			case <-kick:
			case <-end:
				return
			}
		}
	}()
	defer func() {
		s.mu.Lock()
		delete(s.conns, nc)
		s.mu.Unlock()
		nc.Close()
		close(end)
	}()
	r := bufio.NewReaderSize(nc, 4096)
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		vsched.Delay()
		rep, err := c.command(args)
		if err != nil {
			return
		}
		mu.Lock()
		out = append(out, rep...)
		mu.Unlock()
		select {
		case kick <- struct{}{}:
		default:
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	args := make([]string, n)
	for i := range args {
		line, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l, err := strconv.Atoi(strings.TrimRight(line, "\r\n")[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args[i] = string(b[:l])
	}
	return args, nil
}

func (c *conn) command(args []string) (string, error) {
	if len(args) == 0 {
		return "", nil
	}
	name := strings.ToUpper(args[0])
	switch {
	case name == "AUTH":
		a := append([]string{"default"}, args[1:]...)
		if c.authed = [2]string(a[len(a)-2:]) == c.root.Auth; !c.authed {
			return "-WRONGPASS invalid username-password pair or user is disabled.\r\n", nil
		}
		return "+OK\r\n", nil
	case c.root.Auth != [2]string{} && !c.authed:
		return "-NOAUTH Authentication required.\r\n", nil
	case name == "SELECT" && !c.multi && len(args) == 2:
		if n, err := strconv.Atoi(args[1]); err != nil || n < 0 || n > 15 {
			return "-ERR DB index is out of range\r\n", nil
		}
		c.s = c.root.DB(args[1])
		return "+OK\r\n", nil
	}
	s := c.s
	fault, stall := s.plan(name, args[1:])
	switch fault {
	case LateEffect:
		time.Sleep(stall)
	case LateReply:
		defer time.Sleep(stall)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	switch fault {
	case DropBefore:
		return "", errDrop
	case ErrReply:
		return c.fail(name, "ERR injected fault"), nil
	case Loading:
		return c.fail(name, "LOADING injected fault"), nil
	}
	rep := c.dispatch(name, args[1:])
	if fault == DropAfter {
		return "", errDrop
	}
	return rep, nil
}

func (s *Server) plan(name string, args []string) (fault Fault, stall time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Plan != nil {
		fault = s.Plan(s.index, name, args)
	}
	if (name == "MULTI" || name == "UNWATCH") && (fault == ErrReply || fault == Loading) {
		fault = None // the server never refuses these
	}
	s.index++
	s.Commands++
	return fault, s.Stall
}

// fail answers a command with an error. Inside MULTI a queueing error aborts the transaction; a failed EXEC discards it.
func (c *conn) fail(name, msg string) string {
	if c.multi {
		c.bad = true
		if name == "EXEC" || name == "DISCARD" {
			c.reset()
			c.watched = map[string]uint64{}
		}
	}
	return "-" + msg + "\r\n"
}

func (c *conn) reset() {
	c.multi, c.bad, c.queue = false, false, nil
}

func (c *conn) dispatch(name string, a []string) string {
	s := c.s
	switch name {
	case "MULTI":
		if c.multi {
			return "-ERR MULTI calls can not be nested\r\n"
		}
		c.multi = true
		return "+OK\r\n"
	case "DISCARD":
		if !c.multi {
			return "-ERR DISCARD without MULTI\r\n"
		}
		c.reset()
		c.watched = map[string]uint64{}
		return "+OK\r\n"
	case "EXEC":
		if !c.multi {
			return "-ERR EXEC without MULTI\r\n"
		}
		q, bad := c.queue, c.bad
		c.reset()
		w := c.watched
		c.watched = map[string]uint64{}
		if bad {
			return "-EXECABORT Transaction discarded because of previous errors.\r\n"
		}
		for k, v := range w {
			s.get(k) // a key that expired since WATCH counts as changed
			if s.version[k] != v {
				return "*-1\r\n"
			}
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(q))
		for _, cmd := range q {
			b.WriteString(s.exec(strings.ToUpper(cmd[0]), cmd[1:]))
		}
		return b.String()
	case "WATCH":
		if c.multi {
			return "-ERR WATCH inside MULTI is not allowed\r\n"
		}
		for _, k := range a {
			if _, ok := c.watched[k]; !ok {
				s.get(k)
				c.watched[k] = s.version[k]
			}
		}
		return "+OK\r\n"
	case "UNWATCH":
		if !c.multi {
			c.watched = map[string]uint64{}
			return "+OK\r\n"
		}
	}
	if c.multi {
		if !known[name] {
			c.bad = true
			return s.unknown(name)
		}
		c.queue = append(c.queue, append([]string{name}, a...))
		return "+QUEUED\r\n"
	}
	return s.exec(name, a)
}

var known = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`PING ECHO AUTH SELECT CLIENT UNWATCH DEL UNLINK EXISTS TYPE KEYS SCAN EXPIRE PEXPIRE
		EXPIREAT PEXPIREAT TTL PTTL PERSIST RENAME RENAMENX HSET HMSET HSETNX HGET HMGET HGETALL HKEYS HVALS HLEN HEXISTS
		HDEL HINCRBY SET SETNX GET SADD SREM SMEMBERS SISMEMBER SCARD FLUSHDB FLUSHALL DBSIZE TIME TOUCH
		HSCAN SSCAN EXPIRETIME PEXPIRETIME SETEX PSETEX GETDEL GETSET STRLEN MGET MSET INCR DECR INCRBY DECRBY HSTRLEN`) {
		known[n] = true
	}
}

const wrongType = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
const notInt = "-ERR value is not an integer or out of range\r\n"

func bulk(v string) string { return "$" + strconv.Itoa(len(v)) + "\r\n" + v + "\r\n" }
func num(n int) string     { return ":" + strconv.Itoa(n) + "\r\n" }
func arr(v []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(v))
	for _, x := range v {
		b.WriteString(bulk(x))
	}
	return b.String()
}
func wrongArgs(n string) string {
	return "-ERR wrong number of arguments for '" + strings.ToLower(n) + "' command\r\n"
}

func (s *Server) exec(name string, a []string) string {
	if s.Trace != nil {
		s.Trace(name, a)
	}
	need := func(n int) bool { return len(a) >= n }
	hash := func(create bool) (*entry, string) {
		e := s.get(a[0])
		if e == nil {
			if !create {
				return nil, ""
			}
			e = &entry{kind: 'h', hash: map[string]string{}}
			s.db[a[0]] = e
		}
		if e.kind != 'h' {
			return nil, wrongType
		}
		return e, ""
	}
	set := func(create bool) (*entry, string) {
		e := s.get(a[0])
		if e == nil {
			if !create {
				return nil, ""
			}
			e = &entry{kind: 'S', set: map[string]bool{}}
			s.db[a[0]] = e
		}
		if e.kind != 'S' {
			return nil, wrongType
		}
		return e, ""
	}
	switch name {
	case "PING":
		if need(1) {
			return bulk(a[0])
		}
		return "+PONG\r\n"
	case "ECHO":
		return bulk(a[0])
	case "AUTH", "SELECT", "CLIENT", "UNWATCH":
		return "+OK\r\n"
	case "TIME":
		now := s.now()
		return arr([]string{strconv.FormatInt(now.Unix(), 10), strconv.Itoa(now.Nanosecond() / 1000)})
	case "DEL", "UNLINK":
		if !need(1) {
			return wrongArgs(name)
		}
		n := 0
		for _, k := range a {
			if s.del(k) {
				n++
			}
		}
		return num(n)
	case "EXISTS", "TOUCH":
		n := 0
		for _, k := range a {
			if s.get(k) != nil {
				n++
			}
		}
		return num(n)
	case "TYPE":
		e := s.get(a[0])
		switch {
		case e == nil:
			return "+none\r\n"
		case e.kind == 'h':
			return "+hash\r\n"
		case e.kind == 'S':
			return "+set\r\n"
		}
		return "+string\r\n"
	case "KEYS":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		var out []string
		for k := range s.db {
			if s.get(k) != nil && Match(a[0], k) {
				out = append(out, k)
			}
		}
		sort.Strings(out)
		return arr(out)
	case "SCAN":
		var all []string
		for k := range s.db {
			if s.get(k) != nil {
				all = append(all, k)
			}
		}
		typed := func(k, t string) bool { return s.exec("TYPE", []string{k}) == "+"+strings.ToLower(t)+"\r\n" }
		return scan(all, a, 0, typed, func(k string) []string { return []string{k} })
	case "HSCAN", "SSCAN":
		if !need(2) {
			return wrongArgs(name)
		}
		var all []string
		var e *entry
		var bad string
		if name == "HSCAN" {
			if e, bad = hash(false); bad == "" && e != nil {
				for f := range e.hash {
					all = append(all, f)
				}
			}
		} else if e, bad = set(false); bad == "" && e != nil {
			for m := range e.set {
				all = append(all, m)
			}
		}
		if bad != "" {
			return bad
		}
		return scan(all, a[1:], 128, nil, func(k string) []string {
			if name == "HSCAN" {
				return []string{k, e.hash[k]}
			}
			return []string{k}
		})
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		if !need(2) {
			return wrongArgs(name)
		}
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return notInt
		}
		e := s.get(a[0])
		if e == nil {
			return num(0)
		}
		now := s.now()
		var at time.Time
		for _, o := range a[2:] {
			was := e.expires
			if was.IsZero() && strings.EqualFold(o, "NX") || !was.IsZero() && strings.EqualFold(o, "XX") {
				continue
			}
			if !strings.EqualFold(o, "NX") && !strings.EqualFold(o, "XX") {
				return s.unknown(name + " " + o)
			}
			return num(0)
		}
		switch name {
		case "EXPIRE":
			at = time.UnixMilli(now.UnixMilli() + n*1000)
		case "PEXPIRE":
			at = time.UnixMilli(now.UnixMilli() + n)
		case "EXPIREAT":
			at = time.Unix(n, 0)
		case "PEXPIREAT":
			at = time.UnixMilli(n)
		}
		if !at.After(now) {
			s.del(a[0])
		} else {
			e.expires = at
			s.touch(a[0])
		}
		return num(1)
	case "EXPIRETIME", "PEXPIRETIME":
		e := s.get(a[0])
		switch {
		case e == nil:
			return num(-2)
		case e.expires.IsZero():
			return num(-1)
		case name == "EXPIRETIME":
			return num(int(e.expires.Unix()))
		}
		return num(int(e.expires.UnixMilli()))
	case "TTL", "PTTL":
		e := s.get(a[0])
		if e == nil {
			return num(-2)
		}
		if e.expires.IsZero() {
			return num(-1)
		}
		d := time.Until(e.expires)
		if name == "TTL" {
			return num(int((d + 500*time.Millisecond) / time.Second))
		}
		return num(int(d / time.Millisecond))
	case "PERSIST":
		e := s.get(a[0])
		if e == nil || e.expires.IsZero() {
			return num(0)
		}
		e.expires = time.Time{}
		s.touch(a[0])
		return num(1)
	case "RENAME", "RENAMENX":
		if len(a) != 2 {
			return wrongArgs(name)
		}
		e := s.get(a[0])
		if e == nil {
			return "-ERR no such key\r\n"
		}
		if name == "RENAMENX" {
			if s.get(a[1]) != nil {
				return num(0)
			}
		}
		if a[0] != a[1] {
			delete(s.db, a[0])
			s.db[a[1]] = e
			s.touch(a[0])
			s.touch(a[1])
		}
		if name == "RENAMENX" {
			return num(1)
		}
		return "+OK\r\n"
	case "HSET", "HMSET":
		if len(a) < 3 || len(a)%2 == 0 {
			return wrongArgs(name)
		}
		e, bad := hash(true)
		if bad != "" {
			return bad
		}
		n := 0
		for i := 1; i < len(a); i += 2 {
			if _, ok := e.hash[a[i]]; !ok {
				n++
			}
			e.hash[a[i]] = a[i+1]
		}
		s.touch(a[0])
		if name == "HMSET" {
			return "+OK\r\n"
		}
		return num(n)
	case "HSETNX":
		if len(a) != 3 {
			return wrongArgs(name)
		}
		e, bad := hash(true)
		if bad != "" {
			return bad
		}
		if _, ok := e.hash[a[1]]; ok {
			return num(0)
		}
		e.hash[a[1]] = a[2]
		s.touch(a[0])
		return num(1)
	case "HGET", "HEXISTS":
		if len(a) != 2 {
			return wrongArgs(name)
		}
		e, bad := hash(false)
		if bad != "" {
			return bad
		}
		v, ok := "", false
		if e != nil {
			v, ok = e.hash[a[1]]
		}
		if name == "HEXISTS" {
			if ok {
				return num(1)
			}
			return num(0)
		}
		if !ok {
			return "$-1\r\n"
		}
		return bulk(v)
	case "HMGET":
		if !need(2) {
			return wrongArgs(name)
		}
		e, bad := hash(false)
		if bad != "" {
			return bad
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-1)
		for _, f := range a[1:] {
			v, ok := "", false
			if e != nil {
				v, ok = e.hash[f]
			}
			if ok {
				b.WriteString(bulk(v))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "HGETALL", "HKEYS", "HVALS", "HLEN":
		if len(a) != 1 {
			return wrongArgs(name)
		}
		e, bad := hash(false)
		if bad != "" {
			return bad
		}
		var fs []string
		if e != nil {
			for f := range e.hash {
				fs = append(fs, f)
			}
		}
		sort.Strings(fs)
		switch name {
		case "HKEYS":
			return arr(fs)
		case "HLEN":
			return num(len(fs))
		}
		var out []string
		for _, f := range fs {
			if name == "HGETALL" {
				out = append(out, f)
			}
			out = append(out, e.hash[f])
		}
		return arr(out)
	case "HDEL":
		if !need(2) {
			return wrongArgs(name)
		}
		e, bad := hash(false)
		if bad != "" {
			return bad
		}
		n := 0
		if e != nil {
			for _, f := range a[1:] {
				if _, ok := e.hash[f]; ok {
					delete(e.hash, f)
					n++
				}
			}
			if n > 0 {
				s.touch(a[0])
			}
			if len(e.hash) == 0 {
				s.del(a[0])
			}
		}
		return num(n)
	case "HINCRBY":
		e, bad := hash(true)
		if bad != "" {
			return bad
		}
		x, err1 := strconv.Atoi(a[2])
		y, err2 := 0, error(nil)
		if v, ok := e.hash[a[1]]; ok {
			y, err2 = strconv.Atoi(v)
		}
		if err1 != nil || err2 != nil {
			return notInt
		}
		e.hash[a[1]] = strconv.Itoa(x + y)
		s.touch(a[0])
		return num(x + y)
	case "SET", "SETNX":
		if !need(2) {
			return wrongArgs(name)
		}
		var at time.Time
		nx, xx, keep := name == "SETNX", false, false
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			default:
				return s.unknown("SET " + o)
			case "EX", "PX":
				if i+1 >= len(a) {
					return "-ERR syntax error\r\n"
				}
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil {
					return notInt
				}
				if o == "EX" {
					n *= 1000
				}
				at = time.UnixMilli(s.now().UnixMilli() + n)
				i++
			}
		}
		e := s.get(a[0])
		if nx && e != nil || xx && e == nil {
			if name == "SETNX" {
				return num(0)
			}
			return "$-1\r\n"
		}
		if keep && e != nil {
			at = e.expires
		}
		s.db[a[0]] = &entry{kind: 's', str: a[1], expires: at}
		s.touch(a[0])
		if name == "SETNX" {
			return num(1)
		}
		return "+OK\r\n"
	case "SETEX", "PSETEX":
		if len(a) != 3 {
			return wrongArgs(name)
		}
		return s.exec("SET", []string{a[0], a[2], map[string]string{"SETEX": "EX", "PSETEX": "PX"}[name], a[1]})
	case "GET", "GETDEL", "GETSET", "STRLEN":
		e := s.get(a[0])
		if e != nil && e.kind != 's' {
			return wrongType
		}
		out := "$-1\r\n"
		if e != nil {
			out = bulk(e.str)
		}
		switch name {
		case "GETDEL":
			s.del(a[0])
		case "GETSET":
			if len(a) != 2 {
				return wrongArgs(name)
			}
			s.exec("SET", a)
		case "STRLEN":
			if e == nil {
				return num(0)
			}
			return num(len(e.str))
		}
		return out
	case "MGET":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a))
		for _, k := range a {
			if e := s.get(k); e != nil && e.kind == 's' {
				b.WriteString(bulk(e.str))
			} else {
				b.WriteString("$-1\r\n")
			}
		}
		return b.String()
	case "MSET":
		if len(a) == 0 || len(a)%2 != 0 {
			return wrongArgs(name)
		}
		for i := 0; i < len(a); i += 2 {
			s.exec("SET", a[i:i+2])
		}
		return "+OK\r\n"
	case "INCR", "DECR", "INCRBY", "DECRBY":
		n := 1
		if len(a) == 2 {
			var err error
			if n, err = strconv.Atoi(a[1]); err != nil {
				return notInt
			}
		}
		if strings.HasPrefix(name, "DECR") {
			n = -n
		}
		e := s.get(a[0])
		if e == nil {
			e = &entry{kind: 's', str: "0"}
		} else if e.kind != 's' {
			return wrongType
		}
		x, err := strconv.Atoi(e.str)
		if err != nil {
			return notInt
		}
		e.str = strconv.Itoa(x + n)
		s.db[a[0]] = e
		s.touch(a[0])
		return num(x + n)
	case "HSTRLEN":
		e, bad := hash(false)
		if bad != "" {
			return bad
		}
		if e == nil {
			return num(0)
		}
		return num(len(e.hash[a[1]]))
	case "SADD", "SREM":
		e, bad := set(name == "SADD")
		if bad != "" {
			return bad
		}
		n := 0
		if e != nil {
			for _, m := range a[1:] {
				if e.set[m] != (name == "SADD") {
					n++
				}
				if name == "SADD" {
					e.set[m] = true
				} else {
					delete(e.set, m)
				}
			}
			if n > 0 {
				s.touch(a[0])
			}
			if len(e.set) == 0 {
				s.del(a[0])
			}
		}
		return num(n)
	case "SMEMBERS", "SCARD":
		e, bad := set(false)
		if bad != "" {
			return bad
		}
		var ms []string
		if e != nil {
			for m := range e.set {
				ms = append(ms, m)
			}
		}
		sort.Strings(ms)
		if name == "SCARD" {
			return num(len(ms))
		}
		return arr(ms)
	case "SISMEMBER":
		e, bad := set(false)
		if bad != "" {
			return bad
		}
		if e != nil && e.set[a[1]] {
			return num(1)
		}
		return num(0)
	case "FLUSHDB", "FLUSHALL":
		for k := range s.db {
			s.del(k)
		}
		return "+OK\r\n"
	case "DBSIZE":
		n := 0
		for k := range s.db {
			if s.get(k) != nil {
				n++
			}
		}
		return num(n)
	}
	return s.unknown(name)
}

// Gap names a command that some server here does not implement. What a client does then is no evidence of anything.
var Gap atomic.Pointer[string]

func (s *Server) unknown(name string) string {
	Gap.Store(&name)
	return "-ERR unknown command `" + name + "`\r\n"
}

// scan answers SCAN, HSCAN, SSCAN: pages in an order of its own, with a repeated element now and then.
func scan(all []string, a []string, atOnce int, typed func(k, t string) bool, out func(k string) []string) string {
	cur, err := strconv.ParseUint(a[0], 10, 64)
	if err != nil {
		return "-ERR invalid cursor\r\n"
	}
	pat, typ, count := "*", "", 10
	for i := 1; i+1 < len(a); i += 2 {
		switch strings.ToUpper(a[i]) {
		case "MATCH":
			pat = a[i+1]
		case "COUNT":
			if count, err = strconv.Atoi(a[i+1]); err != nil || count < 1 {
				return notInt
			}
		case "TYPE":
			typ = a[i+1]
		}
	}
	repeats := atOnce == 0
	if len(all) <= atOnce {
		count = len(all)
	} else if count > len(all) && cur == 0 {
		atOnce = len(all) // all in one step, as redis does
	} else if count = min(count, len(all)) - int((cur^cur>>32)%3); count < 1 {
		count = 1 // fewer than asked for, as redis may
	}
	place := func(k string) uint64 {
		h := fnv.New64a()
		h.Write([]byte(k))
		return h.Sum64() >> 1
	}
	sort.Slice(all, func(i, j int) bool { return place(all[i]) < place(all[j]) })
	var page []string
	next := uint64(0)
	n := 0
	for _, k := range all {
		if place(k) < cur {
			continue
		}
		if n >= count {
			next = place(k)
			break
		}
		n++
		if cur == 0 && n == len(all) && len(all) > atOnce && place(k)%2 == 0 {
			next = place(k) // an iteration may go on even though nothing but this is left
			break
		}
		if Match(pat, k) && (typ == "" || typed == nil || typed(k, typ)) {
			page = append(page, out(k)...)
			if repeats && place(k)%8 == 0 {
				page = append(page, out(k)...)
			}
		}
	}
	return "*2\r\n" + bulk(strconv.FormatUint(next, 10)) + arr(page)
}

// Match is redis' glob matching.
func Match(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Match(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if match == not {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return len(s) == 0
}
