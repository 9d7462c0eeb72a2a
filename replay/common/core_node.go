package node

import (
	"context"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/router/msg"
	"github.com/redis/go-redis/v9"
	"go.uber.org/zap"
)

func init() { log.ExportSLog(zap.NewNop(), "") }

func vstore(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		t.Skip("no loopback")
	}
	trdredis.MockClient(redis.NewClient(&redis.Options{Addr: mr.Addr(), MaxRetries: -1}))
	return mr
}

type vact struct {
	core.IActor
	mu             sync.Mutex
	id, ty         string
	got            []*msg.Wrapper
	inits, exits   int
	onRecv         func(*msg.Wrapper) error
	onExit, onInit func()
}

func (a *vact) Init(context.Context) {
	a.inits++
	if a.onInit != nil {
		a.onInit()
	}
}
func (a *vact) ID() string   { return a.id }
func (a *vact) Type() string { return a.ty }
func (a *vact) Received(m *msg.Wrapper) error {
	a.mu.Lock()
	a.got = append(a.got, m)
	a.mu.Unlock()
	if a.onRecv != nil {
		return a.onRecv(m)
	}
	return nil
}
func (a *vact) Exit() {
	a.mu.Lock()
	a.exits++
	a.mu.Unlock()
	if a.onExit != nil {
		a.onExit()
	}
}

type vfac map[string]*core.ActorConstructor

func (f vfac) Get(ty string) *core.ActorConstructor    { return f[ty] }
func (f vfac) GetActors() (r []*core.ActorConstructor) { return }

type vld struct{ core.IActorLoader }

type vbld struct {
	core.IActorBuilder
	id, ty   string
	w, limit int
	unique   bool
	con      core.CreateFunc
}

func (b *vbld) GetID() string                   { return b.id }
func (b *vbld) GetType() string                 { return b.ty }
func (b *vbld) GetGlobalQuantityLimit() int     { return b.limit }
func (b *vbld) GetNodeUnique() bool             { return b.unique }
func (b *vbld) GetWeight() int                  { return b.w }
func (b *vbld) GetConstructor() core.CreateFunc { return b.con }

func vfactory() vfac {
	return vfac{"a": {Name: "a", Weight: 3}, "b": {Name: "b", Weight: 5}}
}

func vsystem(id string, port int) *NormalSystem {
	return buildSystemWithOption(id, "127.0.0.1", port, vld{}, vfactory(), nil).(*NormalSystem)
}

func vport(t *testing.T) int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback")
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func vmsg(ctx context.Context) *msg.Wrapper { return msg.NewBuilder(ctx).Build() }

// vadd: a registered actor
func vadd(t *testing.T, s *NormalSystem, id, ty string, w int) *vact {
	a := &vact{id: id, ty: ty}
	if _, err := s.Register(context.Background(), &vbld{id: id, ty: ty, w: w, con: func(core.IActorBuilder) core.IActor { return a }}); err != nil {
		t.Fatalf("register %v %v: %v", id, ty, err)
	}
	return a
}

func vsoon(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
