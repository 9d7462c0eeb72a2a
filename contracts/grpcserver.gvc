package lib/grpc
import realgrpc google.golang.org/grpc

// ---- P39: stopping the server ----
// servers stopped, gracefully or not
ghost gracefuln int
ghost abruptn int
extern realgrpc.Server.GracefulStop(s)
  set gracefuln := gracefuln + 1
extern realgrpc.Server.Stop(s)
  set abruptn := abruptn + 1

func Server.Close(s)
  requires server: s != nil
  modifies gracefuln, abruptn
  ensures stopped [P39]: s.parm.GracefulStop ==> gracefuln == old(gracefuln) + 1 && abruptn == old(abruptn)
  ensures once [P39]: gracefuln + abruptn == old(gracefuln) + old(abruptn) + 1

