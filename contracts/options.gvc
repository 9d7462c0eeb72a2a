package core

// ---- P35: configuration options ----

func NodeWithServiceInfo(ip, port) (opt)
  apply opt(p)
  applied set [P35]: p.Ip == ip && p.Port == port && sameExcept(p, Ip, Port)
func NodeWithID(id) (opt)
  apply opt(p)
  applied set [P35]: p.ID == id && sameExcept(p, ID)
func NodeWithWeight(w) (opt)
  apply opt(p)
  applied set [P35]: p.Weight == w && sameExcept(p, Weight)
func NodeWithLoader(l) (opt)
  apply opt(p)
  applied set [P35]: p.Loader == l && sameExcept(p, Loader)
func NodeWithFactory(f) (opt)
  apply opt(p)
  applied set [P35]: p.Factory == f && sameExcept(p, Factory)
func NodeWithIP(ip) (opt)
  apply opt(p)
  applied set [P35]: p.Ip == ip && sameExcept(p, Ip)
func NodeWithPort(port) (opt)
  apply opt(p)
  applied set [P35]: p.Port == port && sameExcept(p, Port)
func NodeWithTracer(t) (opt)
  apply opt(p)
  applied set [P35]: p.Tracer == t && sameExcept(p, Tracer)

package lib/grpc
import grpc google.golang.org/grpc
import time time

func WithClientPoolInitNum(num) (opt)
  apply opt(p)
  applied set [P35]: p.PoolInitNum == num && sameExcept(p, PoolInitNum)

func WithClientPoolCapacity(num) (opt)
  apply opt(p)
  applied set [P35]: p.PoolCapacity == num && sameExcept(p, PoolCapacity)

func WithClientPoolIdle(second) (opt)
  apply opt(p)
  applied set [P35]: p.PoolIdle == second * 1000000000 && sameExcept(p, PoolIdle)

func WithClientConns(lst) (opt)
  apply opt(p)
  applied appended [P35]: len(p.AddressLst) == old(len(p.AddressLst)) + len(lst) && sameExcept(p, AddressLst)
  applied inOrder [P35]: all(i, int, 0 <= i && i < len(lst) ==> p.AddressLst[old(len(p.AddressLst)) + i] == lst[i])
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.AddressLst)) ==> p.AddressLst[i] == old(p.AddressLst[i]))

func WithMaxConcurrentCalls(maxCalls) (opt)
  apply opt(p)
  applied set [P35]: p.MaxConcurrentCalls == maxCalls && sameExcept(p, MaxConcurrentCalls)

func WithCallTimeout(d) (opt)
  apply opt(p)
  applied set [P35]: p.CallTimeout == d && sameExcept(p, CallTimeout)

func WithDialOptions(opts) (opt)
  apply opt(p)
  applied appended [P35]: len(p.dialOptions) == old(len(p.dialOptions)) + len(opts) && sameExcept(p, dialOptions)
  applied inOrder [P35]: all(i, int, 0 <= i && i < len(opts) ==> p.dialOptions[old(len(p.dialOptions)) + i] == opts[i])
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.dialOptions)) ==> p.dialOptions[i] == old(p.dialOptions[i]))

func ClientAppendUnaryInterceptors(interceptor) (opt)
  apply opt(p)
  applied appended [P35]: len(p.UnaryInterceptors) == old(len(p.UnaryInterceptors)) + len(interceptor) && sameExcept(p, UnaryInterceptors)
  applied inOrder [P35]: all(i, int, 0 <= i && i < len(interceptor) ==> p.UnaryInterceptors[old(len(p.UnaryInterceptors)) + i] == interceptor[i])
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.UnaryInterceptors)) ==> p.UnaryInterceptors[i] == old(p.UnaryInterceptors[i]))

func ClientAppendStreamInterceptors(interceptor) (opt)
  apply opt(p)
  applied appended [P35]: len(p.StreamInterceptors) == old(len(p.StreamInterceptors)) + 1 && p.StreamInterceptors[old(len(p.StreamInterceptors))] == interceptor && sameExcept(p, StreamInterceptors)
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.StreamInterceptors)) ==> p.StreamInterceptors[i] == old(p.StreamInterceptors[i]))

func WithServerListen(address) (opt)
  apply opt(p)
  applied set [P35]: p.ListenAddr == address && sameExcept(p, ListenAddr)

func WithServerGracefulStop() (opt)
  apply opt(p)
  applied set [P35]: p.GracefulStop && sameExcept(p, GracefulStop)

func ServerAppendUnaryInterceptors(interceptor) (opt)
  apply opt(p)
  applied appended [P35]: len(p.UnaryInterceptors) == old(len(p.UnaryInterceptors)) + len(interceptor) && sameExcept(p, UnaryInterceptors)
  applied inOrder [P35]: all(i, int, 0 <= i && i < len(interceptor) ==> p.UnaryInterceptors[old(len(p.UnaryInterceptors)) + i] == interceptor[i])
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.UnaryInterceptors)) ==> p.UnaryInterceptors[i] == old(p.UnaryInterceptors[i]))

func ServerAppendStreamInterceptors(interceptor) (opt)
  apply opt(p)
  applied appended [P35]: len(p.StreamInterceptors) == old(len(p.StreamInterceptors)) + 1 && p.StreamInterceptors[old(len(p.StreamInterceptors))] == interceptor && sameExcept(p, StreamInterceptors)
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.StreamInterceptors)) ==> p.StreamInterceptors[i] == old(p.StreamInterceptors[i]))

func ServerRegisterHandler(handler) (opt)
  apply opt(p)
  applied set [P35]: p.Handler == handler && sameExcept(p, Handler)

package lib/pubsub

func WithReadMode(mode) (opt)
  apply opt(p)
  applied set [P35]: p.ReadMode == mode && sameExcept(p, ReadMode)

func WithTTL(ttl) (opt)
  apply opt(p)
  applied set [P35]: p.ttl == ttl && sameExcept(p, ttl)

func WithSubSuccCallback(cb) (opt)
  apply opt(p)
  applied set [P35]: p.callback == cb && sameExcept(p, callback)

package lib/tracer

func WithServiceName(name) (opt)
  apply opt(p)
  applied set [P35]: p.Name == name && sameExcept(p, Name)

func WithProbabilistic(v) (opt)
  apply opt(p)
  applied set [P35]: p.Probabilistic == v && sameExcept(p, Probabilistic)

func WithSamplerType(v) (opt)
  apply opt(p)
  applied set [P35]: p.SamplerType == v && sameExcept(p, SamplerType)

func WithSlowRequest(ms) (opt)
  apply opt(p)
  applied set [P35]: p.SlowRequest == ms * 1000000 && sameExcept(p, SlowRequest)

func WithSlowSpan(ms) (opt)
  apply opt(p)
  applied set [P35]: p.SlowSpan == ms * 1000000 && sameExcept(p, SlowSpan)

func WithHTTP(v) (opt)
  apply opt(p)
  applied set [P35]: p.CollectorEndpoint == v && sameExcept(p, CollectorEndpoint)

func WithUDP(v) (opt)
  apply opt(p)
  applied set [P35]: p.LocalAgentHostPort == v && sameExcept(p, LocalAgentHostPort)

func WithSpanFactory(fs) (opt)
  apply opt(p)
  given sep: len(p.ImportFactory) >= 0
  applied appended [P35]: len(p.ImportFactory) == old(len(p.ImportFactory)) + len(fs) && sameExcept(p, ImportFactory)
  applied inOrder [P35]: all(i, int, 0 <= i && i < len(fs) ==> p.ImportFactory[old(len(p.ImportFactory)) + i].Name == fs[i].Name && p.ImportFactory[old(len(p.ImportFactory)) + i].Factory == fs[i].Factory)
  applied kept [P35]: all(i, int, 0 <= i && i < old(len(p.ImportFactory)) ==> p.ImportFactory[i].Name == old(p.ImportFactory[i].Name) && p.ImportFactory[i].Factory == old(p.ImportFactory[i].Factory))
  loop(_k int): len(p.ImportFactory) == old(len(p.ImportFactory)) + _k && _k <= len(fs) && sameExcept(p, ImportFactory)
  loop(_k int): all(i, int, 0 <= i && i < _k ==> p.ImportFactory[old(len(p.ImportFactory)) + i].Name == fs[i].Name && p.ImportFactory[old(len(p.ImportFactory)) + i].Factory == fs[i].Factory)
  loop(): all(i, int, 0 <= i && i < old(len(p.ImportFactory)) ==> p.ImportFactory[i].Name == old(p.ImportFactory[i].Name) && p.ImportFactory[i].Factory == old(p.ImportFactory[i].Factory))

package lib/span

func WithNodeID(id) (opt)
  apply opt(p)
  applied set [P35]: p.nodeID == id && sameExcept(p, nodeID)

package 3rd/redis

package lib/grpc
import grpc google.golang.org/grpc
import mw github.com/grpc-ecosystem/go-grpc-middleware

// log of option applications: which option, to which parameter block
ghost optn int
ghost optf [int]int
ghost optp [int]int

functype "lib/grpc.ClientOption" (p)
  modifies fields(p)
  set optf[optn] := self
  set optp[optn] := ref(p)
  set optn := optn + 1
functype "lib/grpc.ServerOption" (p)
  modifies fields(p)
  set optf[optn] := self
  set optp[optn] := ref(p)
  set optn := optn + 1

define appliedAll(opts) = optn == old(optn) + len(opts) && all(i, int, 0 <= i && i < len(opts) ==> optf[old(optn) + i] == opts[i] && optp[old(optn) + i] == optp[old(optn)])

global clientDefaults [P35]: DefaultClientParm.PoolInitNum == 8 && DefaultClientParm.PoolCapacity == 64 && DefaultClientParm.MaxConcurrentCalls == 1024 && DefaultClientParm.CallTimeout == 10000000000 && DefaultClientParm.PoolIdle == 100000000000 && len(DefaultClientParm.AddressLst) == 0 && len(DefaultClientParm.dialOptions) == 0 && len(DefaultClientParm.UnaryInterceptors) == 0 && len(DefaultClientParm.StreamInterceptors) == 0

func BuildClientWithOption(opts) (c)
  maypanic
  mayrtpanic
  modifies optn, optf, optp
  requires given: all(i, int, 0 <= i && i < len(opts) ==> opts[i] != nil)
  ensures applied [P35]: appliedAll(opts)
  ensures effective [P35]: c != nil && (len(opts) > 0 ==> copyExcept(addr(c.parm), cast(optp[old(optn)], *ClientParm)))
  ensures bound [P26]: chcap(c.workers) == c.parm.MaxConcurrentCalls
  loop(_k int): optn == old(optn) + _k && _k <= len(opts)
  loop(_k int, _q *ClientParm): all(i, int, 0 <= i && i < _k ==> optf[old(optn) + i] == opts[i] && optp[old(optn) + i] == ref(_q))

func BuildClientWithOption@defaults(opts) (c)
  maypanic
  mayrtpanic
  requires none: len(opts) == 0
  ensures defaults [P35]: c.parm.PoolInitNum == 8 && c.parm.PoolCapacity == 64 && c.parm.MaxConcurrentCalls == 1024 && c.parm.CallTimeout == 10000000000 && c.parm.PoolIdle == 100000000000 && len(c.parm.AddressLst) == 0 && len(c.parm.dialOptions) == 0 && len(c.parm.UnaryInterceptors) == 0 && len(c.parm.StreamInterceptors) == 0

func BuildServerWithOption(opts) (s)
  maypanic
  modifies optn, optf, optp
  requires given: all(i, int, 0 <= i && i < len(opts) ==> opts[i] != nil)
  ensures applied [P35]: appliedAll(opts)
  ensures effective [P35]: s != nil && s.parm.Handler != nil && (len(opts) > 0 ==> copyExcept(addr(s.parm), cast(optp[old(optn)], *ServerParm)))
  panics applied [P35]: appliedAll(opts)
  loop(_k int): optn == old(optn) + _k && _k <= len(opts)
  loop(_k int, _q *ServerParm): all(i, int, 0 <= i && i < _k ==> optf[old(optn) + i] == opts[i] && optp[old(optn) + i] == ref(_q))

extern grpc.UnaryInterceptor(f) (o)
extern mw.ChainUnaryServer(fs) (f)
extern grpc.NewServer(opts) (s)
  ensures some: s != nil
