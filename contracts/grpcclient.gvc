package lib/grpc
import grpc google.golang.org/grpc
import mw github.com/grpc-ecosystem/go-grpc-middleware
import errgroup golang.org/x/sync/errgroup
import connectivity google.golang.org/grpc/connectivity
import context context
import sync sync

// ---- P26: client calls ----
stable Client.workers : BuildClientWithOption
// slots taken and given back
ghost slt int
ghost slb int
ghost noticed bool
// look-ups in the connection table, by the value found: in which table, under which key
ghost ldm [val]int
ghost ldk [val]val
// connections made, by connection: to which address
ghost dln int
ghost dla [int]string
// remote invocations
ghost ivn int
ghost ivc [int]int
ghost ivm [int]string
ghost iva [int]val
ghost ivr [int]val
ghost ive [int]val
// what a group's function returned
ghost grr [int]val
ufun errwrap(val) val

extern sync.Map.Load(m, k) (v, ok)
  set ldm[v] := ref(m)
  set ldk[v] := k
extern sync.Map.Store(m, k, v)
extern grpc.DialContext(ctx, addr, opts) (c, err)
  set dla[ref(c)] := addr
  set dln := dln + 1
  ensures made: err == nil ==> c != nil
extern grpc.NewClient(addr, opts) (c, err)
  set dla[ref(c)] := addr
  set dln := dln + 1
  ensures made: err == nil ==> c != nil
extern grpc.ClientConn.Invoke(c, ctx, method, args, reply, opts) (err)
  maypanic
  modifies all
  set ivc[ivn] := ref(c)
  set ivm[ivn] := method
  set iva[ivn] := args
  set ivr[ivn] := reply
  set ive[ivn] := err
  set ivn := ivn + 1
extern grpc.WithUnaryInterceptor(f) (o)
extern mw.ChainUnaryClient(fs) (f)
extern grpc.ClientConn.GetState(c) (s)
extern grpc.ClientConn.ResetConnectBackoff(c)
extern grpc.ClientConn.Target(c) (s)
extern errgroup.WithContext(ctx) (g, c)
  ensures derived: g != nil && fresh(g) && c != nil && ctxvals(c) == ctxvals(ctx) && grr[ref(g)] == nil
extern errgroup.Group.Go(g, f)
  maypanic
  modifies grr[ref(g)]
  calls f() (e)
  ensures first: grr[ref(g)] == ite(old(grr[ref(g)]) == nil, e, old(grr[ref(g)]))
extern errgroup.Group.Wait(g) (err)
  ensures def: err == grr[ref(g)]

define asval(conn) = box(conn, *grpc.ClientConn)
define ours(c, addr, conn) = ldm[asval(conn)] == addr(c.connmap) && ldk[asval(conn)] == box(addr, string) || dla[ref(conn)] == addr
define reported(err) = (err == nil <==> ive[old(ivn)] == nil) && (err != nil ==> err == ive[old(ivn)] || errwrap(err) == ive[old(ivn)])

func Client.Call(c, ctx, addr, method, args, reply, opts) (err)
  maypanic
  requires client: c != nil && c.workers != nil && ctx != nil && ref(c.workers) != ctxdone(ctx)
  modifies all, slt, slb, noticed, ldm, ldk, dln, dla, ivn, ivc, ivm, iva, ivr, ive, grr
  at after chan.send(w, v) set slt := ite(ref(w) == ref(c.workers), slt + 1, slt)
  at after chan.recv(w) (v, ok) set slb := ite(ref(w) == ref(c.workers), slb + 1, slb)
  at after chan.recv(w) (v, ok) set noticed := noticed || ref(w) == ctxdone(ctx)
  at chan.wait() endsWithContext [P26]: slt > old(slt) || waiting(ctxdone(ctx))
  at grpc.ClientConn.Invoke(conn, x, m, a, r, o) holdsSlot [P26]: slt == old(slt) + 1 && slb == old(slb)
  at grpc.DialContext(x, a, o) holdsSlot [P26]: slt == old(slt) + 1 && slb == old(slb)
  at grpc.NewClient(a, o) holdsSlot [P26]: slt == old(slt) + 1 && slb == old(slb)
  at grpc.ClientConn.Invoke(conn, x, m, a, r, o) call [P26]: m == method && a == args && r == reply && ours(c, addr, conn)
  at grpc.ClientConn.Invoke(conn, x, m, a, r, o) options [P26]: len(o) == len(opts) && all(i, int, 0 <= i && i < len(opts) ==> o[i] == opts[i])
  ensures slots [P26]: slt - old(slt) == slb - old(slb) && slt - old(slt) <= 1
  panics slots [P26]: slt - old(slt) == slb - old(slb) && slt - old(slt) <= 1
  ensures once [P26]: ivn <= old(ivn) + 1 && (err == nil ==> ivn == old(ivn) + 1)
  panics once [P26]: ivn <= old(ivn) + 1
  ensures noSlot [P26]: slt == old(slt) ==> err != nil && ivn == old(ivn) && dln == old(dln)
  ensures result [P26]: ivn == old(ivn) + 1 ==> reported(err)
  loop(_k int, _s []grpc.CallOption): len(_s) == _k && all(i, int, 0 <= i && i < _k ==> _s[i] == opts[i])
  loop(): slt == old(slt) + 1 && slb == old(slb)
  loop(): ivn == old(ivn)
  loop(_c *grpc.ClientConn): ours(c, addr, _c)

func Client.CallWait(c, ctx, addr, method, args, reply, opts) (err)
  maypanic
  requires client: c != nil && ctx != nil
  modifies all, ldm, ldk, dln, dla, ivn, ivc, ivm, iva, ivr, ive
  at grpc.ClientConn.Invoke(conn, x, m, a, r, o) call [P26]: m == method && a == args && r == reply && ours(c, addr, conn) && x == ctx
  ensures once [P26]: ivn <= old(ivn) + 1 && (err == nil ==> ivn == old(ivn) + 1)
  panics once [P26]: ivn <= old(ivn) + 1
  ensures result [P26]: ivn == old(ivn) + 1 ==> reported(err)
  loop(): ivn == old(ivn)

func Client.CallWait@options(c, ctx, addr, method, args, reply, opts) (err)
  maypanic
  requires client: c != nil && ctx != nil
  requires options: all(i, int, 0 <= i && i < len(opts) ==> typeis(opts[i], grpc.CallOption))
  modifies all, ldm, ldk, dln, dla, ivn, ivc, ivm, iva, ivr, ive
  at grpc.ClientConn.Invoke(conn, x, m, a, r, o) options [P26]: len(o) == len(opts) && all(i, int, 0 <= i && i < len(opts) ==> o[i] == opts[i])
  loop(_k int, _s []grpc.CallOption): len(_s) == _k
  loop(_k int, _s []grpc.CallOption): all(i, int, 0 <= i && i < _k ==> _s[i] == opts[i])
