package lib/span
import ot github.com/opentracing/opentracing-go
import ext github.com/opentracing/opentracing-go/ext
import grpc google.golang.org/grpc
import metadata google.golang.org/grpc/metadata
import grpclog google.golang.org/grpc/grpclog
import context context

// ---- P31: tracing ----
// spans started and finished, in order
ghost spn int
ghost sps [int]val
ghost fin int
ghost fis [int]val

iface ot.Tracer.StartSpan(t, name, opts) (s)
  set sps[spn] := s
  set spn := spn + 1
  ensures started: s != nil
iface ot.Span.Finish(s)
  set fis[fin] := s
  set fin := fin + 1
iface ot.Span.FinishWithOptions(s, o)
  set fis[fin] := s
  set fin := fin + 1
iface ot.Span.Context(s) (c)
iface ot.Span.Tracer(s) (t)
iface ot.Span.SetTag(s, k, v) (r)
iface ot.Span.SetOperationName(s, n) (r)
iface ot.Tracer.Inject(t, c, f, carrier) (err)
iface ot.Tracer.Extract(t, f, carrier) (c, err)
extern ot.SpanFromContext(ctx) (s)
extern ot.ChildOf(c) (r)
extern ot.ContextWithSpan(ctx, s) (c)
  ensures derived: c != nil && ctxdone(c) == ctxdone(ctx)
extern metadata.FromOutgoingContext(ctx) (md, ok)
  ensures copy: ok ==> md != nil && fresh(md)
extern metadata.FromIncomingContext(ctx) (md, ok)
  ensures copy: ok ==> md != nil && fresh(md)
extern metadata.New(m) (md)
  ensures made: md != nil && fresh(md)
extern metadata.MD.Copy(m) (md)
  ensures made: md != nil && fresh(md)
extern metadata.NewOutgoingContext(ctx, md) (c)
  ensures derived: c != nil && ctxdone(c) == ctxdone(ctx)

// the real operation: an arbitrary function
ghost opn int
ghost opf [int]int
ghost opctx [int]val
ghost opreq [int]val
ghost operr [int]val
ghost opres [int]val
ghost opmeth [int]string
ghost oprep [int]val
ghost opcc [int]int
ghost opopts [int]int
ghost oplen [int]int
ghost opfin [int]int
functype "google.golang.org/grpc.UnaryInvoker" (ctx, method, req, reply, cc, opts) (err)
  maypanic
  modifies all
  set opf[opn] := self
  set opctx[opn] := ctx
  set opreq[opn] := req
  set opmeth[opn] := method
  set oprep[opn] := reply
  set opcc[opn] := ref(cc)
  set opopts[opn] := ref(opts)
  set oplen[opn] := len(opts)
  set operr[opn] := err
  set opfin[opn] := fin
  set opn := opn + 1
functype "google.golang.org/grpc.UnaryHandler" (ctx, req) (res, err)
  maypanic
  modifies all
  set opf[opn] := self
  set opctx[opn] := ctx
  set opreq[opn] := req
  set operr[opn] := err
  set opres[opn] := res
  set opfin[opn] := fin
  set opn := opn + 1

define balanced() = fin - old(fin) == spn - old(spn) && all(i, int, 0 <= i && i < spn - old(spn) ==> ex(j, int, 0 <= j && j < fin - old(fin) && fis[old(fin) + j] == sps[old(spn) + i])) && spn - old(spn) <= 1
func ClientInterceptor(tracer) (f)
  requires tracer: tracer != nil
  applymaypanic
  apply f(ctx, method, req, reply, cc, invoker, opts)
  given call: invoker != nil && ctx != nil
  applied once [P31]: opn == old(opn) + 1 && opf[old(opn)] == ref(invoker)
  applied request [P31]: opreq[old(opn)] == req && ctxdone(opctx[old(opn)]) == ctxdone(ctx)
  applied target [P31]: opmeth[old(opn)] == method && oprep[old(opn)] == reply && opcc[old(opn)] == ref(cc) && opopts[old(opn)] == ref(opts) && oplen[old(opn)] == len(opts)
  applied result [P31]: applied0 == operr[old(opn)]
  applied finished [P31]: balanced() && opfin[old(opn)] == old(fin)
  appliedpanics finished [P31]: balanced()

func ServerInterceptor(tracer) (f)
  requires tracer: tracer != nil
  applymaypanic
  apply f(ctx, req, info, handler)
  given call: handler != nil && ctx != nil
  applied once [P31]: opn == old(opn) + 1 && opf[old(opn)] == ref(handler)
  applied request [P31]: opreq[old(opn)] == req && ctxdone(opctx[old(opn)]) == ctxdone(ctx)
  applied result [P31]: applied0 == opres[old(opn)] && applied1 == operr[old(opn)]
  applied finished [P31]: balanced()
  appliedpanics finished [P31]: balanced()

func SystemCallTracer.Begin(t, ctx) (c)
  requires tracer: t != nil && t.tracing != nil && !t.starting
  modifies t.span, t.starting, sps, spn
  ensures context [P31]: c != nil
  ensures invalid [P31]: !typeis(ctx, context.Context) ==> spn == old(spn) && !t.starting
  ensures started [P31]: typeis(ctx, context.Context) ==> spn == old(spn) + 1 && t.starting && t.span == sps[old(spn)]
func SystemCallTracer.End(t, ctx)
  requires tracer: t != nil
  ensures never [P31]: !t.starting ==> fin == old(fin)
  ensures once [P31]: t.starting && t.span != nil ==> fin == old(fin) + 1 && fis[old(fin)] == t.span
  modifies fin, fis
func SystemCallTracer.SetTag(t, key, val)
  requires tracer: t != nil

functype "lib/span.SpanOption" (p)
  modifies p.nodeID
func CreateCallSpan(opts) (f)
  apply f(tracing)
  given options: all(i, int, 0 <= i && i < len(opts) ==> opts[i] != nil)
  applied refused [P31]: !typeis(tracing, ot.Tracer) ==> applied1 != nil
  applied made [P31]: typeis(tracing, ot.Tracer) ==> applied1 == nil && typeis(applied0, *SystemCallTracer) && unbox(applied0, *SystemCallTracer) != nil && unbox(applied0, *SystemCallTracer).tracing == tracing && !unbox(applied0, *SystemCallTracer).starting
  applied nothingStarted [P31]: spn == old(spn) && fin == old(fin)
